From c8c7da70626b3029dd1e192fa5d09379857e18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:59 +0000
Subject: [PATCH 01/42] fix: reject a UUID text that is not 16 bytes long
 instead of panicking

---
 src/providers/mysql/gtid/uuid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mysql/gtid/uuid.rs b/src/providers/mysql/gtid/uuid.rs
index 897efb9..767119f 100644
--- a/src/providers/mysql/gtid/uuid.rs
+++ b/src/providers/mysql/gtid/uuid.rs
@@ -24,6 +24,9 @@ impl Uuid {
         let hex = uuid.replace("-", "");
         let vec = hex::decode(hex)?;
 
+        if vec.len() != 16 {
+            return Err(Error::String(format!("Invalid uuid format {}", uuid)));
+        }
         let mut data = [0u8; 16];
         (0..16).for_each(|i| data[i] = vec[i]);
 
-- 
2.43.0


From 7c8e504aaec9295a1c7cefeeb66703af6d70a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:59 +0000
Subject: [PATCH 02/42] fix: reject a MariaDB GTID that has not exactly three
 components

---
 src/providers/mariadb/gtid/gtid_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mariadb/gtid/gtid_list.rs b/src/providers/mariadb/gtid/gtid_list.rs
index d3216fd..c00b486 100644
--- a/src/providers/mariadb/gtid/gtid_list.rs
+++ b/src/providers/mariadb/gtid/gtid_list.rs
@@ -29,6 +29,9 @@ impl GtidList {
 
         for gtid in gtid_list {
             let components = gtid.split('-').collect::<Vec<&str>>();
+            if components.len() != 3 {
+                return Err(Error::String(format!("Invalid gtid format {}", gtid)));
+            }
             let domain_id: u32 = components[0].parse()?;
             let server_id: u32 = components[1].parse()?;
             let sequence: u64 = components[2].parse()?;
-- 
2.43.0


From 6de97a7d6710cc3b9ceb4d8b2e4cebdd1d69168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:59 +0000
Subject: [PATCH 03/42] fix: reject a GTID set with a wrong separator or a
 reversed interval

---
 src/providers/mysql/gtid/gtid_set.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 3bb8cc8..9e0e3c1 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -38,6 +38,9 @@ impl GtidSet {
             let source_id = Uuid::parse(source_id)?;
 
             let mut intervals = Vec::new();
+            if uuid_set.chars().nth(UUID_LENGTH) != Some(':') {
+                return Err(Error::String(format!("Invalid gtid set {}", uuid_set)));
+            }
             let ranges: String = uuid_set.chars().skip(UUID_LENGTH + 1).collect();
             let ranges = ranges.split(':').collect::<Vec<&str>>();
 
@@ -48,6 +51,9 @@ impl GtidSet {
                     2 => Interval::new(range[0].parse()?, range[1].parse()?),
                     _ => return Err(Error::String(format!("Invalid interval format {}", token))),
                 };
+                if interval.start > interval.end {
+                    return Err(Error::String(format!("Invalid interval {}", token)));
+                }
                 intervals.push(interval);
             }
             result.insert(source_id.uuid.clone(), UuidSet::new(source_id, intervals));
-- 
2.43.0


From bb81891e58e0b62dfa947f49810cf8de0f25fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 04/42] fix: parse a UUID to its canonical text whatever its
 letter case

---
 src/providers/mysql/gtid/uuid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/providers/mysql/gtid/uuid.rs b/src/providers/mysql/gtid/uuid.rs
index 767119f..fc10600 100644
--- a/src/providers/mysql/gtid/uuid.rs
+++ b/src/providers/mysql/gtid/uuid.rs
@@ -30,7 +30,7 @@ impl Uuid {
         let mut data = [0u8; 16];
         (0..16).for_each(|i| data[i] = vec[i]);
 
-        Ok(Self { data, uuid })
+        Ok(Self::new(data))
     }
 }
 
-- 
2.43.0


From e7199ae71a982582034c0dd82174e15840d4ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 05/42] fix: merge repeated sources and unsorted or overlapping
 intervals of a GTID set

---
 src/providers/mysql/gtid/gtid_set.rs | 8 ++++++--
 src/providers/mysql/gtid/uuid_set.rs | 5 +++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 9e0e3c1..6e9a72a 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -32,12 +32,16 @@ impl GtidSet {
         let gtid_set = gtid_set.replace("\n", "");
         let uuid_sets = gtid_set.split(',').map(|x| x.trim()).collect::<Vec<&str>>();
 
-        let mut result = HashMap::new();
+        let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
 
-            let mut intervals = Vec::new();
+            // The same source may be mentioned more than once.
+            let mut intervals = match result.remove(&source_id.uuid) {
+                Some(x) => x.intervals,
+                None => Vec::new(),
+            };
             if uuid_set.chars().nth(UUID_LENGTH) != Some(':') {
                 return Err(Error::String(format!("Invalid gtid set {}", uuid_set)));
             }
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 32c2122..98c0650 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -17,6 +17,7 @@ pub struct UuidSet {
 impl UuidSet {
     pub fn new(source_id: Uuid, mut intervals: Vec<Interval>) -> Self {
         if intervals.len() > 1 {
+            intervals.sort_by_key(|x| x.start);
             collapse_intervals(&mut intervals);
         }
         Self {
@@ -88,8 +89,8 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end + 1 == right_start {
-            left.end = right_end;
+        if right_start <= left.end || left.end + 1 == right_start {
+            left.end = left.end.max(right_end);
             intervals.remove(index + 1);
         } else {
             index += 1;
-- 
2.43.0


From 2d4a1200ceae95ceccbba9be263e7164279390b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:46 +0000
Subject: [PATCH 06/42] fix: GTID sets at the end of the number range no longer
 overflow

---
 src/providers/mysql/gtid/uuid_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 98c0650..daaebe7 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -38,10 +38,10 @@ impl UuidSet {
         let mut added = false;
         if index < self.intervals.len() {
             let interval = &mut self.intervals[index];
-            if interval.start == gtid.transaction_id + 1 {
+            if gtid.transaction_id.checked_add(1) == Some(interval.start) {
                 interval.start = gtid.transaction_id;
                 added = true;
-            } else if interval.end + 1 == gtid.transaction_id {
+            } else if interval.end.checked_add(1) == Some(gtid.transaction_id) {
                 interval.end = gtid.transaction_id;
                 added = true;
             } else if interval.start <= gtid.transaction_id && gtid.transaction_id <= interval.end {
-- 
2.43.0


From 7230e822966355ad90d17d2c0190131f46eadde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:57 +0000
Subject: [PATCH 07/42] fix: decode the zero YEAR as 0 instead of 1900

---
 src/events/row_events/col_parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index df78fef..34f079f 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -28,7 +28,11 @@ pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>,
 }
 
 pub fn parse_year(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<u16, Error> {
-    Ok(1900 + cursor.read_u8()? as u16)
+    match cursor.read_u8()? {
+        // The zero year is not an offset from 1900.
+        0 => Ok(0),
+        value => Ok(1900 + value as u16),
+    }
 }
 
 pub fn parse_date(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<Date, Error> {
-- 
2.43.0


From 652b9030e80f30d5e283baccd0da81e60abdf1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 08/42] fix: report an event with a truncated payload instead
 of ending the binlog file there

---
 src/binlog_reader.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index e5b5c53..05726ae 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -5,7 +5,7 @@ use crate::events::event_header::EventHeader;
 use crate::events::event_parser::EventParser;
 use constants::EVENT_HEADER_SIZE;
 use std::fs::File;
-use std::io::{ErrorKind, Read};
+use std::io::{self, ErrorKind, Read};
 
 const MAGIC_NUMBER: [u8; constants::FIRST_EVENT_POSITION] = [0xfe, 0x62, 0x69, 0x6e];
 
@@ -47,18 +47,34 @@ impl BinlogReader {
             let mut vec: Vec<u8> = vec![0; payload_length];
 
             self.stream.read_exact(&mut vec)?;
-            let binlog_event = self.parser.parse_event(&header, &vec)?;
+            let binlog_event = self
+                .parser
+                .parse_event(&header, &vec)
+                .map_err(payload_error)?;
             Ok((header, binlog_event))
         } else {
             let slice = &mut self.payload_buffer[0..payload_length];
 
             self.stream.read_exact(slice)?;
-            let binlog_event = self.parser.parse_event(&header, slice)?;
+            let binlog_event = self
+                .parser
+                .parse_event(&header, slice)
+                .map_err(payload_error)?;
             Ok((header, binlog_event))
         }
     }
 }
 
+/// A payload that ends too early is malformed, it is not the end of the file.
+fn payload_error(error: Error) -> Error {
+    match error {
+        Error::IoError(e) if e.kind() == ErrorKind::UnexpectedEof => {
+            Error::IoError(io::Error::new(ErrorKind::InvalidData, e))
+        }
+        e => e,
+    }
+}
+
 impl Iterator for BinlogReader {
     type Item = Result<(EventHeader, BinlogEvent), Error>;
 
-- 
2.43.0


From d5684c5573d2827611c7d8d9b30bb2da0a321838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 09/42] fix: report an event length shorter than the header
 instead of panicking

---
 src/binlog_reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index 05726ae..17079aa 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -42,6 +42,12 @@ impl BinlogReader {
         self.stream.read_exact(&mut header_buffer)?;
         let header = EventHeader::parse(&header_buffer)?;
 
+        if (header.event_length as usize) < EVENT_HEADER_SIZE {
+            return Err(Error::String(format!(
+                "Invalid event length {}",
+                header.event_length
+            )));
+        }
         let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
         if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
             let mut vec: Vec<u8> = vec![0; payload_length];
-- 
2.43.0


From 9b26495436635278443984c1d0a7346297fa848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 10/42] fix: report an event shorter than its checksum instead
 of panicking

---
 src/events/event_parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/events/event_parser.rs b/src/events/event_parser.rs
index 2dfcef7..5c019d0 100644
--- a/src/events/event_parser.rs
+++ b/src/events/event_parser.rs
@@ -46,6 +46,9 @@ impl EventParser {
         // Consider verifying checksum
         let mut cursor = match self.checksum_type {
             ChecksumType::None => Cursor::new(slice),
+            ChecksumType::Crc32 if slice.len() < 4 => {
+                return Err(Error::String("Event has no checksum".to_string()))
+            }
             ChecksumType::Crc32 => Cursor::new(&slice[0..slice.len() - 4]),
         };
 
-- 
2.43.0


From bb3fe96671a065dc3374862f5d70efb7c900afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 11/42] fix: check declared lengths against the event before
 allocating memory for them

---
 src/events/row_events/col_parser.rs |  3 ++-
 src/events/table_map_event.rs       |  5 ++++-
 src/extensions.rs                   | 16 ++++++++++++++--
 src/metadata/table_metadata.rs      |  6 ++++--
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 34f079f..711bdf3 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,6 +1,6 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_string};
+use crate::extensions::{check_remaining, read_bitmap_big_endian, read_string};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read};
 
@@ -22,6 +22,7 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
     let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
+    check_remaining(cursor, length)?;
     let mut vec = vec![0; length];
     cursor.read_exact(&mut vec)?;
     Ok(vec)
diff --git a/src/events/table_map_event.rs b/src/events/table_map_event.rs
index 2ec4b04..83f0943 100644
--- a/src/events/table_map_event.rs
+++ b/src/events/table_map_event.rs
@@ -1,6 +1,8 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_string};
+use crate::extensions::{
+    check_remaining, read_bitmap_little_endian, read_len_enc_num, read_string,
+};
 use crate::metadata::table_metadata::TableMetadata;
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read, Seek, SeekFrom};
@@ -50,6 +52,7 @@ impl TableMapEvent {
         cursor.seek(SeekFrom::Current(1))?;
 
         let columns_number = read_len_enc_num(cursor)?;
+        check_remaining(cursor, columns_number)?;
         let mut column_types = vec![0u8; columns_number];
         cursor.read_exact(&mut column_types)?;
 
diff --git a/src/extensions.rs b/src/extensions.rs
index c9257c1..3be7071 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -59,7 +59,17 @@ pub fn write_null_term_string(
     Ok(())
 }
 
+/// Makes sure a declared size is not larger than the data before memory is allocated for it.
+pub fn check_remaining(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Error> {
+    let length = cursor.get_ref().len() as u64;
+    if size as u64 > length.saturating_sub(cursor.position()) {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+    }
+    Ok(())
+}
+
 pub fn read_string(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<String, Error> {
+    check_remaining(cursor, size)?;
     let mut vec = vec![0; size];
     cursor.read_exact(&mut vec)?;
     Ok(String::from_utf8(vec)?)
@@ -101,8 +111,9 @@ pub fn read_bitmap_little_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    check_remaining(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
@@ -121,8 +132,9 @@ pub fn read_bitmap_big_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    check_remaining(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
diff --git a/src/metadata/table_metadata.rs b/src/metadata/table_metadata.rs
index 7577e62..1ac6010 100644
--- a/src/metadata/table_metadata.rs
+++ b/src/metadata/table_metadata.rs
@@ -1,6 +1,6 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_len_enc_num, read_len_enc_str};
+use crate::extensions::{check_remaining, read_len_enc_num, read_len_enc_str};
 use crate::metadata::default_charset::DefaultCharset;
 use crate::metadata::metadata_type::MetadataType;
 use byteorder::ReadBytesExt;
@@ -66,6 +66,7 @@ impl TableMetadata {
             let metadata_type = MetadataType::from_code(cursor.read_u8()?)?;
             let metadata_length = read_len_enc_num(cursor)?;
 
+            check_remaining(cursor, metadata_length)?;
             let mut metadata = vec![0u8; metadata_length];
             cursor.read_exact(&mut metadata)?;
 
@@ -183,8 +184,9 @@ fn read_bitmap_reverted(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
-    let mut result = vec![false; bits_number];
     let bytes_number = (bits_number + 7) / 8;
+    check_remaining(cursor, bytes_number)?;
+    let mut result = vec![false; bits_number];
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
-- 
2.43.0


From 3c43e016a83005533a87c1376b6296a331f2e22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 12/42] fix: report a row event whose number of columns is not
 that of its table

---
 src/events/row_events/row_parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 9182e3c..9e5a02d 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -35,6 +35,7 @@ pub fn parse_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns_number(table, columns_present)?;
     let cells_included = get_bits_number(columns_present);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
@@ -55,6 +56,8 @@ pub fn parse_update_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns_number(table, columns_before_update)?;
+    check_columns_number(table, columns_after_update)?;
     let cells_included_before_update = get_bits_number(columns_before_update);
     let cells_included_after_update = get_bits_number(columns_after_update);
     let mut rows = Vec::new();
@@ -183,6 +186,18 @@ fn parse_cell(
     Ok(value)
 }
 
+/// A row event has to have as many columns as its table.
+fn check_columns_number(table: &TableMapEvent, columns: &Vec<bool>) -> Result<(), Error> {
+    if columns.len() != table.column_types.len() {
+        return Err(Error::String(format!(
+            "Row event has {} columns but its table has {}",
+            columns.len(),
+            table.column_types.len()
+        )));
+    }
+    Ok(())
+}
+
 /// Gets number of bits set in a bitmap.
 fn get_bits_number(bitmap: &Vec<bool>) -> usize {
     bitmap.iter().filter(|&x| *x == true).count()
-- 
2.43.0


From ac96ca0f243249e8f77407ff5eb48609d10faac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:51 +0000
Subject: [PATCH 13/42] fix: report row data without columns instead of reading
 rows forever

---
 src/events/row_events/row_parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 9e5a02d..953fe3a 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -39,6 +39,7 @@ pub fn parse_row_data_list(
     let cells_included = get_bits_number(columns_present);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        check_rows_have_columns(cells_included)?;
         rows.push(parse_row(cursor, table, columns_present, cells_included)?);
     }
     Ok(rows)
@@ -62,6 +63,7 @@ pub fn parse_update_row_data_list(
     let cells_included_after_update = get_bits_number(columns_after_update);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        check_rows_have_columns(cells_included_before_update + cells_included_after_update)?;
         let row_before_update = parse_row(
             cursor,
             table,
@@ -198,6 +200,16 @@ fn check_columns_number(table: &TableMapEvent, columns: &Vec<bool>) -> Result<()
     Ok(())
 }
 
+/// Rows without columns have no data, reading them would never end.
+fn check_rows_have_columns(cells_included: usize) -> Result<(), Error> {
+    if cells_included == 0 {
+        return Err(Error::String(
+            "Row event has data but no columns".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 /// Gets number of bits set in a bitmap.
 fn get_bits_number(bitmap: &Vec<bool>) -> usize {
     bitmap.iter().filter(|&x| *x == true).count()
-- 
2.43.0


From 4987a373b139a71963966651c604900eb2c53c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:19 +0000
Subject: [PATCH 14/42] fix: report column metadata outside its range instead
 of panicking

---
 src/events/row_events/col_parser.rs | 16 +++++++++++++++-
 src/events/row_events/decimal.rs    |  6 ++++++
 src/events/row_events/row_parser.rs | 10 +++-------
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 711bdf3..538d7a8 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -20,8 +20,16 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
     Ok(bitmap)
 }
 
+/// Reads an integer whose size comes from the column metadata.
+pub fn parse_uint(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64, Error> {
+    if metadata < 1 || metadata > 8 {
+        return Err(Error::String(format!("Invalid integer size {}", metadata)));
+    }
+    Ok(cursor.read_uint::<LittleEndian>(metadata as usize)?)
+}
+
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
-    let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
+    let length = parse_uint(cursor, metadata)? as usize;
     check_remaining(cursor, length)?;
     let mut vec = vec![0; length];
     cursor.read_exact(&mut vec)?;
@@ -163,6 +171,12 @@ pub fn parse_timestamp2(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64
 }
 
 fn parse_fractional_part(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64, Error> {
+    if metadata > 6 {
+        return Err(Error::String(format!(
+            "Invalid fractional seconds precision {}",
+            metadata
+        )));
+    }
     let length = (metadata + 1) / 2;
     if length == 0 {
         return Ok(0);
diff --git a/src/events/row_events/decimal.rs b/src/events/row_events/decimal.rs
index 34c94f6..9f755c3 100644
--- a/src/events/row_events/decimal.rs
+++ b/src/events/row_events/decimal.rs
@@ -10,6 +10,12 @@ const COMPRESSED_BYTES: [u8; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
 pub fn parse_decimal(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let precision = metadata & 0xFF;
     let scale = (metadata >> 8) as u8;
+    if precision == 0 || precision < scale as u16 {
+        return Err(Error::String(format!(
+            "Invalid decimal precision {} and scale {}",
+            precision, scale
+        )));
+    }
     let integral = (precision - scale as u16) as u8;
 
     let uncompressed_integral = integral / DIGITS_PER_INT;
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 953fe3a..eb84c38 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -2,7 +2,7 @@ use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
 use crate::events::row_events::col_parser::{
     parse_bit, parse_blob, parse_date, parse_date_time, parse_date_time2, parse_string, parse_time,
-    parse_time2, parse_timestamp, parse_timestamp2, parse_year,
+    parse_time2, parse_timestamp, parse_timestamp2, parse_uint, parse_year,
 };
 use crate::events::row_events::mysql_value::MySqlValue;
 use crate::events::row_events::row_data::{RowData, UpdateRowData};
@@ -153,12 +153,8 @@ fn parse_cell(
         ColumnType::VarString => MySqlValue::String(parse_string(cursor, metadata)?),
         /* BIT, ENUM, SET types */
         ColumnType::Bit => MySqlValue::Bit(parse_bit(cursor, metadata)?),
-        ColumnType::Enum => {
-            MySqlValue::Enum(cursor.read_uint::<LittleEndian>(metadata as usize)? as u32)
-        }
-        ColumnType::Set => {
-            MySqlValue::Set(cursor.read_uint::<LittleEndian>(metadata as usize)? as u64)
-        }
+        ColumnType::Enum => MySqlValue::Enum(parse_uint(cursor, metadata)? as u32),
+        ColumnType::Set => MySqlValue::Set(parse_uint(cursor, metadata)?),
         /* Blob types. MariaDB always creates BLOB for first three */
         ColumnType::TinyBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
         ColumnType::MediumBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
-- 
2.43.0


From 3c076fb655d731f8f957670114b353816cbebefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:38 +0000
Subject: [PATCH 15/42] fix: report an empty or reversed interval of previous
 gtids instead of panicking

---
 src/providers/mysql/events/prev_gtids_event.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/providers/mysql/events/prev_gtids_event.rs b/src/providers/mysql/events/prev_gtids_event.rs
index d579d53..4cd04b7 100644
--- a/src/providers/mysql/events/prev_gtids_event.rs
+++ b/src/providers/mysql/events/prev_gtids_event.rs
@@ -28,6 +28,12 @@ impl PreviousGtidsEvent {
             for _y in 0..interval_number {
                 let start = cursor.read_u64::<LittleEndian>()?;
                 let end = cursor.read_u64::<LittleEndian>()?;
+                if end <= start {
+                    return Err(Error::String(format!(
+                        "Invalid gtid interval from {} to {}",
+                        start, end
+                    )));
+                }
                 uuid_set.intervals.push(Interval::new(start, end - 1));
             }
             gtid_set
-- 
2.43.0


From d129990331a519c5f1ffbe5dc6db9f5516507a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:59 +0000
Subject: [PATCH 16/42] fix: report a format description of unusual length
 instead of panicking

---
 src/events/format_description_event.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/events/format_description_event.rs b/src/events/format_description_event.rs
index b2d76d1..92730d5 100644
--- a/src/events/format_description_event.rs
+++ b/src/events/format_description_event.rs
@@ -46,7 +46,10 @@ impl FormatDescriptionEvent {
         let payload_length = cursor.read_u8()?;
 
         let mut checksum_type = ChecksumType::None;
-        if payload_length != header.event_length as u8 - constants::EVENT_HEADER_SIZE as u8 {
+        let event_payload = header
+            .event_length
+            .saturating_sub(constants::EVENT_HEADER_SIZE as u32);
+        if payload_length as u32 != event_payload {
             let skip = payload_length as i64
                 - EVENT_TYPES_OFFSET as i64
                 - EventType::FormatDescriptionEvent as i64;
-- 
2.43.0


From ed350cf0e428f393e3712187a6b6fcd532376ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:52 +0000
Subject: [PATCH 17/42] fix: read user variables that are logged without flags

---
 src/events/uservar_event.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events/uservar_event.rs b/src/events/uservar_event.rs
index b7ca715..1dd5441 100644
--- a/src/events/uservar_event.rs
+++ b/src/events/uservar_event.rs
@@ -47,7 +47,12 @@ impl UserVarEvent {
         let value_len = cursor.read_u32::<LittleEndian>()?;
         let value = read_string(cursor, value_len as usize)?;
 
-        let flags = cursor.read_u8()?;
+        // Flags are written only for integer values
+        let flags = if cursor.position() < cursor.get_ref().len() as u64 {
+            cursor.read_u8()?
+        } else {
+            0
+        };
 
         Ok(Self {
             name,
-- 
2.43.0


From 070abe01e65d7d7dbc9a1e64c1bbfee20835d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:24 +0000
Subject: [PATCH 18/42] fix: decode numeric user variables to their value
 instead of failing or reporting raw bytes

---
 src/events/row_events/mod.rs |  2 +-
 src/events/uservar_event.rs  | 41 +++++++++++++++++++++++++++++++++---
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/events/row_events/mod.rs b/src/events/row_events/mod.rs
index 6557a83..6c609bf 100644
--- a/src/events/row_events/mod.rs
+++ b/src/events/row_events/mod.rs
@@ -6,5 +6,5 @@ pub mod write_rows_event;
 
 mod actual_string_type;
 mod col_parser;
-mod decimal;
+pub(crate) mod decimal;
 mod row_parser;
diff --git a/src/events/uservar_event.rs b/src/events/uservar_event.rs
index 1dd5441..84abef6 100644
--- a/src/events/uservar_event.rs
+++ b/src/events/uservar_event.rs
@@ -1,7 +1,16 @@
 use byteorder::{LittleEndian, ReadBytesExt};
-use std::io::Cursor;
+use std::io::{Cursor, Read};
 
-use crate::{errors::Error, extensions::read_string};
+use crate::{
+    errors::Error,
+    events::row_events::decimal::parse_decimal,
+    extensions::{check_remaining, read_string},
+};
+
+const REAL_RESULT: u8 = 1;
+const INT_RESULT: u8 = 2;
+const DECIMAL_RESULT: u8 = 4;
+const UNSIGNED_FLAG: u8 = 1;
 
 /// A USER_VAR_EVENT is written every time a statement uses a user defined variable.
 /// <a href="https://mariadb.com/kb/en/user_var_event/">See more</a>
@@ -45,7 +54,7 @@ impl UserVarEvent {
         let collation = cursor.read_u32::<LittleEndian>()?;
 
         let value_len = cursor.read_u32::<LittleEndian>()?;
-        let value = read_string(cursor, value_len as usize)?;
+        let value = read_bytes(cursor, value_len as usize)?;
 
         // Flags are written only for integer values
         let flags = if cursor.position() < cursor.get_ref().len() as u64 {
@@ -53,6 +62,7 @@ impl UserVarEvent {
         } else {
             0
         };
+        let value = parse_value(var_type, &value, flags)?;
 
         Ok(Self {
             name,
@@ -66,6 +76,31 @@ impl UserVarEvent {
     }
 }
 
+fn read_bytes(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<Vec<u8>, Error> {
+    check_remaining(cursor, size)?;
+    let mut vec = vec![0; size];
+    cursor.read_exact(&mut vec)?;
+    Ok(vec)
+}
+
+/// Numbers are stored in binary form, everything else as text.
+fn parse_value(var_type: u8, value: &[u8], flags: u8) -> Result<String, Error> {
+    let mut cursor = Cursor::new(value);
+    match var_type {
+        REAL_RESULT => Ok(cursor.read_f64::<LittleEndian>()?.to_string()),
+        INT_RESULT if flags & UNSIGNED_FLAG != 0 => {
+            Ok(cursor.read_u64::<LittleEndian>()?.to_string())
+        }
+        INT_RESULT => Ok(cursor.read_i64::<LittleEndian>()?.to_string()),
+        DECIMAL_RESULT => {
+            // Precision and scale precede the digits
+            let metadata = cursor.read_u16::<LittleEndian>()?;
+            parse_decimal(&mut cursor, metadata)
+        }
+        _ => Ok(String::from_utf8(value.to_vec())?),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::io::Cursor;
-- 
2.43.0


From 15204092d33c2c81a176a509c01ae45fe5eb05e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:32 +0000
Subject: [PATCH 19/42] fix: MariaDB gtid list events carry flags beside the
 number of gtids

---
 src/providers/mariadb/events/gtid_list_event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/providers/mariadb/events/gtid_list_event.rs b/src/providers/mariadb/events/gtid_list_event.rs
index 18443e6..9567783 100644
--- a/src/providers/mariadb/events/gtid_list_event.rs
+++ b/src/providers/mariadb/events/gtid_list_event.rs
@@ -14,7 +14,8 @@ pub struct GtidListEvent {
 impl GtidListEvent {
     /// Parses events in MariaDB.
     pub fn parse(cursor: &mut Cursor<&[u8]>) -> Result<Self, Error> {
-        let gtid_list_len = cursor.read_u32::<LittleEndian>()?;
+        // The upper 4 bits hold flags
+        let gtid_list_len = cursor.read_u32::<LittleEndian>()? & 0x0FFF_FFFF;
 
         let mut gtid_list = GtidList::new();
         for _i in 0..gtid_list_len {
-- 
2.43.0


From 2bd2ef2b324b19f379551799cfb7374b6511ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:54 +0000
Subject: [PATCH 20/42] fix: send an empty authentication response when there
 is no password

---
 src/extensions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index 3be7071..4c8086a 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -9,6 +9,11 @@ use sha2::{Digest, Sha256};
 use std::io::{self, BufRead, Cursor, Read, Write};
 
 pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &AuthPlugin) -> Vec<u8> {
+    // No response is sent when there is no password.
+    if password.is_empty() {
+        return Vec::new();
+    }
+
     match auth_plugin {
         AuthPlugin::MySqlNativePassword => {
             let password_hash = sha1(password.as_bytes());
-- 
2.43.0


From d6d9b7390c320097a24f594484b76a33f96cb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:54 +0000
Subject: [PATCH 21/42] fix: the scramble follows the hash in the
 caching_sha2_password response

---
 src/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 4c8086a..f8450cf 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -22,7 +22,7 @@ pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &Auth
         }
         AuthPlugin::CachingSha2Password => {
             let password_hash = sha256(password.as_bytes());
-            let concat_hash = [scramble.as_bytes().to_vec(), sha256(&password_hash)].concat();
+            let concat_hash = [sha256(&password_hash), scramble.as_bytes().to_vec()].concat();
             xor(&password_hash, &sha256(&concat_hash))
         }
     }
-- 
2.43.0


From aed990e7cc6fba208902bb8bb60d2b5bdebc6d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:54 +0000
Subject: [PATCH 22/42] fix: read the OK packet that ends a
 caching_sha2_password login

---
 src/connect.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 6d1b61a..36f7064 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -117,7 +117,14 @@ impl BinlogClient {
     ) -> Result<(), Error> {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
         // Success authentication.
+        if packet[0] == ResponseType::OK {
+            return Ok(());
+        }
+
+        // Success fast authentication is followed by OK packet.
         if packet[0] == 0x01 && packet[1] == 0x03 {
+            let (packet, _seq_num) = channel.read_packet()?;
+            check_error_packet(&packet, "Authentication error.")?;
             return Ok(());
         }
 
-- 
2.43.0


From 87b61ab811136cf6c7cb73055e650af50747ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:48 +0000
Subject: [PATCH 23/42] fix: report an empty packet instead of panicking

---
 src/packet_channel.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index dae50a0..93e8758 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -25,6 +25,14 @@ impl PacketChannel {
         let packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()?;
         let seq_num = header_buffer[3];
 
+        // Every response starts with a status byte or a protocol version.
+        if packet_size == 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "The server sent an empty packet",
+            ));
+        }
+
         let mut packet: Vec<u8> = vec![0; packet_size as usize];
         self.stream.read_exact(&mut packet)?;
 
-- 
2.43.0


From 6acdba54eccda7952cf01622fcfc430af2f8a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 24/42] fix: report a master status without file name or
 position instead of panicking or streaming from the first binlog

---
 src/configure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configure.rs b/src/configure.rs
index 453616e..f457fff 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -23,7 +23,7 @@ impl BinlogClient {
         channel.write_packet(&command.serialize()?, 0)?;
 
         let result_set = self.read_result_set(channel)?;
-        if result_set.len() != 1 {
+        if result_set.len() != 1 || result_set[0].cells.len() < 2 || result_set[0].cells[0].is_empty() {
             return Err(Error::String(
                 "Could not read master binlog position.".to_string(),
             ));
-- 
2.43.0


From 57dbed583a58e896c336b9455a98234db43a4e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:01 +0000
Subject: [PATCH 25/42] fix: a MariaDB gtid event begins a transaction unless
 it stands alone

---
 src/binlog_client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index cf7b19a..0e563cf 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -11,6 +11,9 @@ use crate::replica_options::ReplicaOptions;
 use crate::ssl_mode::SslMode;
 use crate::starting_strategy::StartingStrategy;
 
+/// Flag of MariaDB gtid event, the group consists of a single event.
+const MARIADB_FL_STANDALONE: u8 = 1;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -74,6 +77,8 @@ impl BinlogClient {
         match event {
             BinlogEvent::MariaDbGtidEvent(x) => {
                 self.maria_gtid = Some(x.gtid.clone());
+                // A group that is not a standalone event begins a transaction without BEGIN.
+                self.transaction = (x.flags & MARIADB_FL_STANDALONE) == 0;
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
-- 
2.43.0


From 8b06f3c9f3c808625395da76804ce88f8af4d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:01 +0000
Subject: [PATCH 26/42] fix: an XA transaction ends with its prepare event, not
 with its first statement

---
 src/binlog_client.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 0e563cf..a5d1c16 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -3,6 +3,7 @@ use crate::constants::database_provider::DatabaseProvider;
 use crate::errors::Error;
 use crate::events::binlog_event::BinlogEvent;
 use crate::events::event_header::EventHeader;
+use crate::events::event_type::EventType;
 use crate::providers::mariadb::gtid::gtid::Gtid as MariaGtid;
 use crate::providers::mariadb::mariadb_provider::replicate_mariadb;
 use crate::providers::mysql::gtid::gtid::Gtid as MySqlGtid;
@@ -65,11 +66,11 @@ impl BinlogClient {
 
     /// Updates current replication position
     pub fn commit(&mut self, header: &EventHeader, event: &BinlogEvent) {
-        self.update_gtid_position(event);
+        self.update_gtid_position(header, event);
         self.update_binlog_position(header, event);
     }
 
-    fn update_gtid_position(&mut self, event: &BinlogEvent) {
+    fn update_gtid_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         if self.options.binlog.starting_strategy != StartingStrategy::FromGtid {
             return;
         }
@@ -90,7 +91,7 @@ impl BinlogClient {
                 if x.sql_statement.is_empty() {
                     return;
                 }
-                if x.sql_statement == "BEGIN" {
+                if x.sql_statement == "BEGIN" || x.sql_statement.starts_with("XA START ") {
                     self.transaction = true;
                 } else if x.sql_statement == "COMMIT" || x.sql_statement == "ROLLBACK" {
                     self.commit_gtid();
@@ -99,7 +100,12 @@ impl BinlogClient {
                     self.commit_gtid();
                 }
             }
-            _ => {}
+            _ => {
+                // The first phase of XA transaction is a group on its own.
+                if header.event_type == EventType::MySqlXaPrepare as u8 {
+                    self.commit_gtid();
+                }
+            }
         }
     }
 
-- 
2.43.0


From 09e3a260145ce59329f3079bb9dcdff8ead07737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:40 +0000
Subject: [PATCH 27/42] fix: CREATE TABLE ... START TRANSACTION begins a
 transaction

---
 src/binlog_client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index a5d1c16..7f68bba 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -93,6 +93,11 @@ impl BinlogClient {
                 }
                 if x.sql_statement == "BEGIN" || x.sql_statement.starts_with("XA START ") {
                     self.transaction = true;
+                } else if x.sql_statement.starts_with("CREATE TABLE ")
+                    && x.sql_statement.ends_with(" START TRANSACTION")
+                {
+                    // CREATE TABLE ... SELECT in MySQL 8.0.21+ is followed by its rows
+                    self.transaction = true;
                 } else if x.sql_statement == "COMMIT" || x.sql_statement == "ROLLBACK" {
                     self.commit_gtid();
                 } else if !self.transaction {
-- 
2.43.0


From 68d3557d4e771b3251fd361c0c3aa4bd8d834219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:40 +0000
Subject: [PATCH 28/42] fix: advance the position behind the last row event of
 a statement only

---
 src/binlog_client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 7f68bba..8b0d2f2 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -15,6 +15,9 @@ use crate::starting_strategy::StartingStrategy;
 /// Flag of MariaDB gtid event, the group consists of a single event.
 const MARIADB_FL_STANDALONE: u8 = 1;
 
+/// Flag of row events, the event is the last one of its statement.
+const ROWS_FLAG_STMT_END: u16 = 1;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -117,9 +120,12 @@ impl BinlogClient {
     fn update_binlog_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         // Rows event depends on preceding TableMapEvent & we change the position
         // after we read them atomically to prevent missing mapping on reconnect.
-        // Figure out something better as TableMapEvent can be followed by several row events.
+        // TableMapEvent can be followed by several row events, the last one ends the statement.
         match event {
             BinlogEvent::TableMapEvent(_) => return,
+            BinlogEvent::WriteRowsEvent(x) if x.flags & ROWS_FLAG_STMT_END == 0 => return,
+            BinlogEvent::UpdateRowsEvent(x) if x.flags & ROWS_FLAG_STMT_END == 0 => return,
+            BinlogEvent::DeleteRowsEvent(x) if x.flags & ROWS_FLAG_STMT_END == 0 => return,
             BinlogEvent::RotateEvent(x) => {
                 self.options.binlog.filename = x.binlog_filename.clone();
                 self.options.binlog.position = x.binlog_position as u32;
-- 
2.43.0


From b2d131c925d76087ce24bc1483a031bb91c51b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:40 +0000
Subject: [PATCH 29/42] fix: request GTID replication without a file position

---
 src/providers/mysql/mysql_provider.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/providers/mysql/mysql_provider.rs b/src/providers/mysql/mysql_provider.rs
index 36c92d5..246e7c6 100644
--- a/src/providers/mysql/mysql_provider.rs
+++ b/src/providers/mysql/mysql_provider.rs
@@ -1,5 +1,6 @@
 use crate::commands::dump_binlog_command::DumpBinlogCommand;
 use crate::commands::dump_binlog_gtid_command::DumpBinlogGtidCommand;
+use crate::constants::FIRST_EVENT_POSITION;
 use crate::errors::Error;
 use crate::packet_channel::PacketChannel;
 use crate::replica_options::ReplicaOptions;
@@ -12,10 +13,12 @@ pub fn replicate_mysql(
 ) -> Result<(), Error> {
     if options.binlog.starting_strategy == StartingStrategy::FromGtid {
         if let Some(gtid_set) = &options.binlog.gtid_set {
+            // The server finds the first file itself. With a file name it would skip everything before
+            // the position including the rest of an interrupted transaction.
             let command = DumpBinlogGtidCommand::new(
                 server_id,
-                options.binlog.filename.clone(),
-                options.binlog.position,
+                String::new(),
+                FIRST_EVENT_POSITION as u32,
             );
             channel.write_packet(&command.serialize(&gtid_set)?, 0)?
         } else {
-- 
2.43.0


From a7930a231e3e1ba08f4039a0918f0ca0b0660210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:12 +0000
Subject: [PATCH 30/42] fix: report a missing challenge instead of panicking in
 full authentication

---
 src/connect.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 36f7064..4b80496 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -144,6 +144,12 @@ impl BinlogClient {
         let (packet, seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Requesting caching_sha2_password public key.")?;
 
+        if scramble.is_empty() {
+            return Err(Error::String(
+                "The server sent no challenge to encrypt the password with.".to_string(),
+            ));
+        }
+
         // Extract public key.
         let public_key = &packet[1..];
         let encrypted_password = xor(&password, &scramble.as_bytes());
-- 
2.43.0


From 21bc099f1280d5bf3f542d9ec3ed97f3af495970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:12 +0000
Subject: [PATCH 31/42] fix: report a login packet of one byte instead of
 panicking

---
 src/connect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 4b80496..32affb5 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -122,7 +122,7 @@ impl BinlogClient {
         }
 
         // Success fast authentication is followed by OK packet.
-        if packet[0] == 0x01 && packet[1] == 0x03 {
+        if packet.starts_with(&[0x01, 0x03]) {
             let (packet, _seq_num) = channel.read_packet()?;
             check_error_packet(&packet, "Authentication error.")?;
             return Ok(());
-- 
2.43.0


From 027c87f79425fb776cc2b13e411213e24f7150b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:12 +0000
Subject: [PATCH 32/42] fix: report an empty answer to the checksum query
 instead of panicking

---
 src/configure.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/configure.rs b/src/configure.rs
index f457fff..4d1361f 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -61,7 +61,12 @@ impl BinlogClient {
 
         // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
         // In order to deserialize the event we have to obtain checksum type length in advance.
-        Ok(ChecksumType::from_name(&result_set[0].cells[0])?)
+        match result_set.first().and_then(|x| x.cells.first()) {
+            Some(name) => Ok(ChecksumType::from_name(name)?),
+            None => Err(Error::String(
+                "Could not read master binlog checksum.".to_string(),
+            )),
+        }
     }
 
     fn read_result_set(
-- 
2.43.0


From 4d1901c116c1afbae8ba098f7a6f4921695899c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:13 +0000
Subject: [PATCH 33/42] fix: packet numbers wrap around after 255 instead of
 overflowing

---
 src/connect.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 32affb5..b3244f7 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -23,7 +23,7 @@ impl BinlogClient {
         let handshake = HandshakePacket::parse(&packet)?;
 
         let auth_plugin = self.get_auth_plugin(&handshake.auth_plugin_name)?;
-        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num + 1)?;
+        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num.wrapping_add(1))?;
         Ok((channel, DatabaseProvider::from(&handshake.server_version)))
     }
 
@@ -61,7 +61,7 @@ impl BinlogClient {
             ResponseType::OK => return Ok(()),
             ResponseType::AUTH_PLUGIN_SWITCH => {
                 let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
-                self.handle_auth_plugin_switch(channel, switch_packet, seq_num + 1, use_ssl)?;
+                self.handle_auth_plugin_switch(channel, switch_packet, seq_num.wrapping_add(1), use_ssl)?;
                 Ok(())
             }
             _ => {
@@ -69,7 +69,7 @@ impl BinlogClient {
                     channel,
                     &packet,
                     &handshake.scramble,
-                    seq_num + 1,
+                    seq_num.wrapping_add(1),
                     use_ssl,
                 )?;
                 Ok(())
@@ -100,7 +100,7 @@ impl BinlogClient {
                 channel,
                 &packet,
                 &switch_packet.auth_plugin_data,
-                seq_num + 1,
+                seq_num.wrapping_add(1),
                 use_ssl,
             )?;
         }
@@ -162,7 +162,7 @@ impl BinlogClient {
             Padding::PKCS1_OAEP,
         )?;
 
-        channel.write_packet(&encrypted_body, seq_num + 1)?;
+        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication error.")?;
         Ok(())
-- 
2.43.0


From e3939b1358dd4e6ce8bcd3ae523a721d6bf71bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:02 +0000
Subject: [PATCH 34/42] fix: a login succeeds with an OK packet only

---
 src/connect.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index b3244f7..465e64f 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -103,8 +103,9 @@ impl BinlogClient {
                 seq_num.wrapping_add(1),
                 use_ssl,
             )?;
+            return Ok(());
         }
-        Ok(())
+        check_login_packet(&packet, "Authentication switch error.")
     }
 
     fn authenticate_sha_256(
@@ -124,8 +125,7 @@ impl BinlogClient {
         // Success fast authentication is followed by OK packet.
         if packet.starts_with(&[0x01, 0x03]) {
             let (packet, _seq_num) = channel.read_packet()?;
-            check_error_packet(&packet, "Authentication error.")?;
-            return Ok(());
+            return check_login_packet(&packet, "Authentication error.");
         }
 
         let mut password = self.options.password.as_bytes().to_vec();
@@ -135,8 +135,7 @@ impl BinlogClient {
         if use_ssl {
             channel.write_packet(&password, seq_num)?;
             let (packet, _seq_num) = channel.read_packet()?;
-            check_error_packet(&packet, "Sending clear password error.")?;
-            return Ok(());
+            return check_login_packet(&packet, "Sending clear password error.");
         }
 
         // Request public key.
@@ -164,8 +163,7 @@ impl BinlogClient {
 
         channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
-        check_error_packet(&packet, "Authentication error.")?;
-        Ok(())
+        check_login_packet(&packet, "Authentication error.")
     }
 
     fn get_auth_plugin(&self, auth_plugin_name: &String) -> Result<AuthPlugin, Error> {
@@ -179,3 +177,13 @@ impl BinlogClient {
         Err(Error::String(message.to_string()))
     }
 }
+
+/// The login succeeds with an OK packet and nothing else.
+fn check_login_packet(packet: &[u8], message: &str) -> Result<(), Error> {
+    check_error_packet(packet, message)?;
+    if packet[0] != ResponseType::OK {
+        let message = format!("{} Unexpected packet {:#04x}.", message, packet[0]);
+        return Err(Error::String(message));
+    }
+    Ok(())
+}
-- 
2.43.0


From 681f9e8c3f91f9890252e0ff74bca1d5f45bcdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:01 +0000
Subject: [PATCH 35/42] fix: start full authentication only when the server
 asks for it

---
 src/connect.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 465e64f..5197238 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -128,6 +128,12 @@ impl BinlogClient {
             return check_login_packet(&packet, "Authentication error.");
         }
 
+        // Anything but a request for full authentication, e.g. one more plugin switch, is not supported.
+        if !packet.starts_with(&[0x01, 0x04]) {
+            let message = format!("Unexpected login packet {:#04x}.", packet[0]);
+            return Err(Error::String(message));
+        }
+
         let mut password = self.options.password.as_bytes().to_vec();
         password.push(NULL_TERMINATOR);
 
-- 
2.43.0


From dcfe7262087ca5debbcd6ce727339721c988bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:57 +0000
Subject: [PATCH 36/42] fix: send the whole packet when the socket takes only a
 part of it

---
 src/packet_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 93e8758..a7d145a 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -43,7 +43,7 @@ impl PacketChannel {
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-        self.stream.write(packet)?;
+        self.stream.write_all(packet)?;
         Ok(())
     }
 
-- 
2.43.0


From 2149477771e39d4e96474c845d4683baebebe8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:30 +0000
Subject: [PATCH 37/42] fix: read payloads of 16 MiB and more, which are
 continued in further packets

---
 src/packet_channel.rs | 44 +++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index a7d145a..4abeec6 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -2,7 +2,7 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io::{self, Read, Write};
 use std::net::TcpStream;
 
-use crate::constants::{PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
+use crate::constants::{MAX_BODY_LENGTH, PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
 use crate::replica_options::ReplicaOptions;
 
 pub struct PacketChannel {
@@ -19,24 +19,32 @@ impl PacketChannel {
     }
 
     pub fn read_packet(&mut self) -> Result<(Vec<u8>, u8), io::Error> {
-        let mut header_buffer = [0; PACKET_HEADER_SIZE];
-
-        self.stream.read_exact(&mut header_buffer)?;
-        let packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()?;
-        let seq_num = header_buffer[3];
-
-        // Every response starts with a status byte or a protocol version.
-        if packet_size == 0 {
-            return Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "The server sent an empty packet",
-            ));
+        let mut packet: Vec<u8> = Vec::new();
+
+        loop {
+            let mut header_buffer = [0; PACKET_HEADER_SIZE];
+            self.stream.read_exact(&mut header_buffer)?;
+            let packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()? as usize;
+            let seq_num = header_buffer[3];
+
+            let offset = packet.len();
+            packet.resize(offset + packet_size, 0);
+            self.stream.read_exact(&mut packet[offset..])?;
+
+            // A payload of the maximum size is continued in the next packet.
+            if packet_size == MAX_BODY_LENGTH {
+                continue;
+            }
+
+            // Every response starts with a status byte or a protocol version.
+            if packet.is_empty() {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "The server sent an empty packet",
+                ));
+            }
+            return Ok((packet, seq_num));
         }
-
-        let mut packet: Vec<u8> = vec![0; packet_size as usize];
-        self.stream.read_exact(&mut packet)?;
-
-        Ok((packet, seq_num))
     }
 
     pub fn write_packet(&mut self, packet: &[u8], seq_num: u8) -> Result<(), io::Error> {
-- 
2.43.0


From ca5f0614166a3d27dcc6849e7c53218047d9b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 38/42] fix: refuse a GTID interval whose end the dump request
 cannot express instead of overflowing

---
 src/commands/dump_binlog_gtid_command.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/dump_binlog_gtid_command.rs b/src/commands/dump_binlog_gtid_command.rs
index e0b7655..27bca4a 100644
--- a/src/commands/dump_binlog_gtid_command.rs
+++ b/src/commands/dump_binlog_gtid_command.rs
@@ -53,7 +53,11 @@ impl DumpBinlogGtidCommand {
 
             for interval in &uuid_set.intervals {
                 cursor.write_u64::<LittleEndian>(interval.start)?;
-                cursor.write_u64::<LittleEndian>(interval.end + 1)?;
+                // The end is exclusive there.
+                let end = interval.end.checked_add(1).ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidInput, "Gtid interval end is too large")
+                })?;
+                cursor.write_u64::<LittleEndian>(end)?;
             }
         }
 
-- 
2.43.0


From 2a9ca9e7bbd58bedf04ac40f722981e5fc36e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:04 +0000
Subject: [PATCH 39/42] fix: continue requests of 16 MiB and more in further
 packets instead of panicking

---
 src/packet_channel.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 4abeec6..b93e66b 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -48,10 +48,17 @@ impl PacketChannel {
     }
 
     pub fn write_packet(&mut self, packet: &[u8], seq_num: u8) -> Result<(), io::Error> {
+        // A payload of the maximum size is continued in the next packet.
+        let (packet, rest) = packet.split_at(packet.len().min(MAX_BODY_LENGTH));
+
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
         self.stream.write_all(packet)?;
+
+        if packet.len() == MAX_BODY_LENGTH {
+            self.write_packet(rest, seq_num.wrapping_add(1))?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 1843bccc0c2a99c4910cfdf8d3aa0480a36daa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 40/42] fix: surface an error packet that the server sends in
 place of the metadata of a result set

---
 src/configure.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configure.rs b/src/configure.rs
index 4d1361f..d456486 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -79,6 +79,7 @@ impl BinlogClient {
         loop {
             // Skip through metadata
             let (packet, _) = channel.read_packet()?;
+            check_error_packet(&packet, "Query metadata error.")?;
             if packet[0] == ResponseType::END_OF_FILE {
                 break;
             }
-- 
2.43.0


From 7b7c72bb36edc6e21a4f28d3f6f67fa2516787b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:13 +0000
Subject: [PATCH 41/42] fix: keep the code and message of an error packet whose
 message is not UTF-8

---
 src/responses/error_packet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/responses/error_packet.rs b/src/responses/error_packet.rs
index a635fbe..b14e9c2 100644
--- a/src/responses/error_packet.rs
+++ b/src/responses/error_packet.rs
@@ -16,8 +16,10 @@ impl ErrorPacket {
 
         let error_code = cursor.read_u16::<LittleEndian>()?;
 
-        let mut error_message = String::new();
-        cursor.read_to_string(&mut error_message)?;
+        // The message may be in any character set.
+        let mut message = Vec::new();
+        cursor.read_to_end(&mut message)?;
+        let mut error_message = String::from_utf8_lossy(&message).to_string();
 
         let mut sql_state = None;
         if error_message.starts_with('#') {
-- 
2.43.0


From ca31def7451ec88a7d7bcd232c5a819d41e8cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 42/42] fix: keep no binlog file name of an answer whose
 position is not usable

---
 src/configure.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configure.rs b/src/configure.rs
index d456486..97c61e7 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -29,8 +29,9 @@ impl BinlogClient {
             ));
         }
 
+        let position = result_set[0].cells[1].parse()?;
         self.options.binlog.filename = result_set[0].cells[0].clone();
-        self.options.binlog.position = result_set[0].cells[1].parse()?;
+        self.options.binlog.position = position;
         Ok(())
     }
 
-- 
2.43.0

