From 3c3119537a35707783e31b6182da3ded0e37a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:44 +0000
Subject: [PATCH 01/22] fix: SFileVerifyArchive no longer deadlocks when
 verifying all files

It called SFileVerifyFile, which locks the archive table, while still
holding that lock.
---
 storm-ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8f59f25..a6f719a 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1227,6 +1227,9 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
             }
         };
 
+        // SFileVerifyFile takes the archive lock itself
+        drop(archives);
+
         // Verify each file individually
         for file_entry in file_list {
             // Skip special files and directories
-- 
2.43.0


From f8fbce6201b248e4820536f623db63aeba848fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:44 +0000
Subject: [PATCH 02/22] fix: SFileEnumFiles releases the archive lock before
 calling back

A callback that used any archive function deadlocked.
---
 storm-ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index a6f719a..bc0ca58 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -841,6 +841,9 @@ pub unsafe extern "C" fn SFileEnumFiles(
     // List files
     match archive_handle.archive.list() {
         Ok(entries) => {
+            // The callback may call back into this API
+            drop(archives);
+
             for entry in entries {
                 // Simple pattern matching (just * for now)
                 if pattern == "*" || entry.name.contains(&pattern.replace("*", "")) {
-- 
2.43.0


From b8767a087bc19347364ab6eadc0c9a3458a56b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 03/22] fix: SFileCloseArchive leaves no file handle of the
 archive behind

A file opened by another thread between purging the file table and removing
the archive kept a usable handle.
---
 storm-ffi/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index bc0ca58..bc702aa 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -290,14 +290,16 @@ pub unsafe extern "C" fn SFileCreateArchive(
 #[no_mangle]
 pub extern "C" fn SFileCloseArchive(handle: HANDLE) -> bool {
     if let Some(handle_id) = handle_to_id(handle) {
+        // Close the archive first, so that no file of it can be opened any more
+        let closed = ARCHIVES.lock().unwrap().remove(&handle_id).is_some();
+
         // Remove any open files from this archive
         FILES
             .lock()
             .unwrap()
             .retain(|_, file| file.archive_handle != handle_id);
 
-        // Close the archive
-        if ARCHIVES.lock().unwrap().remove(&handle_id).is_some() {
+        if closed {
             set_last_error(ERROR_SUCCESS);
             true
         } else {
-- 
2.43.0


From 4edeee881a56b3b82789509032cb7b4ed2b669a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 04/22] fix: SFileHasFile reports why it failed through the
 last error

It never set the last error, so callers saw the code of an earlier call.
---
 storm-ffi/src/lib.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index bc702aa..358cec8 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -566,23 +566,42 @@ pub unsafe extern "C" fn SFileSetFilePointer(
 #[no_mangle]
 pub unsafe extern "C" fn SFileHasFile(archive: HANDLE, filename: *const c_char) -> bool {
     if filename.is_null() {
+        set_last_error(ERROR_INVALID_PARAMETER);
         return false;
     }
 
     let Some(archive_id) = handle_to_id(archive) else {
+        set_last_error(ERROR_INVALID_HANDLE);
         return false;
     };
 
     let filename_str = match CStr::from_ptr(filename).to_str() {
         Ok(s) => s,
-        Err(_) => return false,
+        Err(_) => {
+            set_last_error(ERROR_INVALID_PARAMETER);
+            return false;
+        }
     };
 
     let archives = ARCHIVES.lock().unwrap();
-    if let Some(archive_handle) = archives.get(&archive_id) {
-        matches!(archive_handle.archive.find_file(filename_str), Ok(Some(_)))
-    } else {
-        false
+    let Some(archive_handle) = archives.get(&archive_id) else {
+        set_last_error(ERROR_INVALID_HANDLE);
+        return false;
+    };
+
+    match archive_handle.archive.find_file(filename_str) {
+        Ok(Some(_)) => {
+            set_last_error(ERROR_SUCCESS);
+            true
+        }
+        Ok(None) => {
+            set_last_error(ERROR_FILE_NOT_FOUND);
+            false
+        }
+        Err(_) => {
+            set_last_error(ERROR_FILE_CORRUPT);
+            false
+        }
     }
 }
 
-- 
2.43.0


From e2c9bef710e31fb123565ed12aa9b3a53213948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:57 +0000
Subject: [PATCH 05/22] fix: SFileSetFilePointer combines the two offset halves
 correctly

A low half with its top bit set wiped out the high half, moving before the
start of the file jumped to its end, and a large offset overflowed.
---
 storm-ffi/src/lib.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 358cec8..4da43e2 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -528,25 +528,26 @@ pub unsafe extern "C" fn SFileSetFilePointer(
     };
 
     // Combine high and low parts into 64-bit offset
-    let mut offset = file_pos as i64;
-    if !file_pos_high.is_null() {
-        let high = *file_pos_high as i64;
-        offset |= high << 32;
-    }
+    let offset = if file_pos_high.is_null() {
+        file_pos as i64
+    } else {
+        // The low part is unsigned when a high part is given
+        ((*file_pos_high as i64) << 32) | (file_pos as u32 as i64)
+    };
 
     // Calculate new position
     let new_pos = match move_method {
-        0 => offset as usize,                                   // FILE_BEGIN
-        1 => (file_handle.position as i64 + offset) as usize,   // FILE_CURRENT
-        2 => (file_handle.data.len() as i64 + offset) as usize, // FILE_END
+        0 => offset,                                                 // FILE_BEGIN
+        1 => (file_handle.position as i64).saturating_add(offset),   // FILE_CURRENT
+        2 => (file_handle.data.len() as i64).saturating_add(offset), // FILE_END
         _ => {
             set_last_error(ERROR_INVALID_PARAMETER);
             return 0xFFFFFFFF;
         }
     };
 
-    // Clamp to file size
-    file_handle.position = new_pos.min(file_handle.data.len());
+    // Clamp to the file
+    file_handle.position = (new_pos.max(0) as usize).min(file_handle.data.len());
 
     // Return new position
     let pos = file_handle.position as u64;
-- 
2.43.0


From c3d6d37d2ad0e317d4bf6b214df11c7c4206ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:05 +0000
Subject: [PATCH 06/22] fix: files of several sectors are always flagged as
 having a sector table

---
 mopaq/src/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c2fe5d8..fb2144a 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -987,6 +987,10 @@ impl ArchiveBuilder {
             // Multi-sector file
             let sector_count = file_data.len().div_ceil(*sector_size);
 
+            // Only files flagged as compressed have a sector offset table; sectors that
+            // do not shrink are stored raw in it
+            flags |= BlockEntry::FLAG_COMPRESS;
+
             // Set CRC flag early if enabled (needed for encryption key calculation)
             if self.generate_crcs {
                 flags |= BlockEntry::FLAG_SECTOR_CRC;
-- 
2.43.0


From 2059fa4e17d5926235eb324aeb237a2ed09fbc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:58 +0000
Subject: [PATCH 07/22] fix: SFileEnumFiles reports failure when the file list
 cannot be read

---
 storm-ffi/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 4da43e2..3052be8 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -885,9 +885,9 @@ pub unsafe extern "C" fn SFileEnumFiles(
             true
         }
         Err(_) => {
-            // No listfile, but that's okay
-            set_last_error(ERROR_SUCCESS);
-            true
+            // A missing listfile is not an error for list(): this is a damaged archive
+            set_last_error(ERROR_FILE_CORRUPT);
+            false
         }
     }
 }
-- 
2.43.0


From 3f2a5ee7a127cd1ee26d9a008e97583f3f48511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:15 +0000
Subject: [PATCH 08/22] fix: SFileVerifyArchive fails when the file list cannot
 be read

---
 storm-ffi/src/lib.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 3052be8..944b031 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1241,14 +1241,9 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
         let file_list = match archive_handle.archive.list() {
             Ok(list) => list,
             Err(_) => {
-                // If we can't get the file list, try to enumerate from tables
-                match archive_handle.archive.list_all() {
-                    Ok(list) => list,
-                    Err(_) => {
-                        set_last_error(ERROR_FILE_CORRUPT);
-                        return false;
-                    }
-                }
+                // A missing listfile is not an error for list(): this is a damaged archive
+                set_last_error(ERROR_FILE_CORRUPT);
+                return false;
             }
         };
 
-- 
2.43.0


From 4a656eb8ae2af7411e6010b6e15a2cb183f4f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 09/22] fix: compressed data is only used when it is shorter
 including its method byte

---
 mopaq/src/compression/compress.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 0582737..2c22e7f 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -13,9 +13,10 @@ pub fn compress(data: &[u8], method: u8) -> Result<Vec<u8>> {
     // Check if compression actually reduces size
     let compressed = compress_internal(data, method)?;
 
-    // MPQ format requires that compression saves at least 2 bytes
-    // If it doesn't, we return the original data uncompressed
-    if compressed.len() >= data.len() {
+    // Readers tell compressed from stored data by its size, so the compressed form,
+    // including its method byte, has to be shorter than the data.
+    // If it isn't, we return the original data uncompressed
+    if compressed.len() + 1 >= data.len() {
         // Return uncompressed data (no compression byte prefix)
         Ok(data.to_vec())
     } else {
-- 
2.43.0


From 2d7463224de84c07a739cbea25aeb1d2122764d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:20 +0000
Subject: [PATCH 10/22] fix: sparse compression never encodes a run of zeros as
 the end marker

---
 mopaq/src/compression/algorithms/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index fa82cd8..b816573 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -59,7 +59,8 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
         if zero_count > 0 {
             // Encode runs of zeros
             while zero_count > 0 {
-                let chunk = zero_count.min(0x7F);
+                // 0x80 | 0x7F is the end marker
+                let chunk = zero_count.min(0x7E);
                 output.push(0x80 | (chunk as u8));
                 zero_count -= chunk;
             }
-- 
2.43.0


From ad73f426cba10e1e3bc774560a20d60722f34a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:26 +0000
Subject: [PATCH 11/22] fix: reject combinations of compression methods that
 cannot be decompressed, decode ADPCM+BZip2

---
 mopaq/src/compression/algorithms/bzip2.rs | 19 +++++++++++++------
 mopaq/src/compression/compress.rs         |  8 ++++++++
 mopaq/src/compression/decompress.rs       |  2 +-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index 6cb1ab7..821a23d 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -8,12 +8,7 @@ use std::io::{Read, Write};
 
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
-    let mut decoder = BzDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
-
-    decoder
-        .read_to_end(&mut decompressed)
-        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+    let decompressed = decompress_unsized(data, expected_size)?;
 
     if decompressed.len() != expected_size {
         return Err(Error::compression(format!(
@@ -26,6 +21,18 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     Ok(decompressed)
 }
 
+/// Decompress using BZip2 when the size of the output is not known
+pub(crate) fn decompress_unsized(data: &[u8], capacity: usize) -> Result<Vec<u8>> {
+    let mut decoder = BzDecoder::new(data);
+    let mut decompressed = Vec::with_capacity(capacity);
+
+    decoder
+        .read_to_end(&mut decompressed)
+        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+
+    Ok(decompressed)
+}
+
 /// Compress using BZip2
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
     let mut encoder = BzEncoder::new(Vec::new(), Compression::default());
diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 2c22e7f..b01d6e7 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -58,6 +58,14 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     let has_bzip2 = (flags & flags::BZIP2) != 0;
     let has_sparse = (flags & flags::SPARSE) != 0;
 
+    // Combinations that could not be decompressed again
+    if (flags & flags::IMPLODE) != 0 || (has_adpcm_mono && has_adpcm_stereo) {
+        return Err(Error::compression(format!(
+            "Unsupported combination of compression methods: 0x{:02X}",
+            flags
+        )));
+    }
+
     // We apply compressions in order: ADPCM, then others
     let mut current_data = data.to_vec();
 
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0330108..7b21756 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -101,7 +101,7 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
         current_data = algorithms::zlib::decompress(&current_data, expected_size * 4)?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
-        current_data = algorithms::bzip2::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::bzip2::decompress_unsized(&current_data, expected_size * 4)?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
         current_data = algorithms::sparse::decompress(&current_data, expected_size * 4)?;
-- 
2.43.0


From d20d4ae8c45cd5775b8a970cefc7f53a3e43fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:48 +0000
Subject: [PATCH 12/22] fix: extracting all files never writes outside of the
 target directory

---
 storm-cli/src/commands/file.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index dee6577..5e26e45 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -6,7 +6,7 @@ use glob::Pattern;
 use mopaq::Archive;
 use regex::Regex;
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use crate::output::{
     print_file_info, print_file_list, print_file_list_verbose, print_file_list_with_hashes,
@@ -121,11 +121,7 @@ pub fn extract(
                 }
             };
 
-            let output_path = if preserve_path {
-                PathBuf::from(output_dir).join(filename)
-            } else {
-                PathBuf::from(output_dir).join(Path::new(filename).file_name().unwrap())
-            };
+            let output_path = extraction_path(output_dir, filename, preserve_path)?;
 
             // Create parent directories if needed
             if let Some(parent) = output_path.parent() {
@@ -147,6 +143,29 @@ pub fn extract(
     Ok(())
 }
 
+/// Where to extract a file named by the archive: always below `output_dir`
+fn extraction_path(output_dir: &str, filename: &str, preserve_path: bool) -> Result<PathBuf> {
+    let mut output_path = PathBuf::from(output_dir);
+
+    if preserve_path {
+        for component in Path::new(filename).components() {
+            match component {
+                Component::Normal(part) => output_path.push(part),
+                Component::CurDir => {}
+                _ => anyhow::bail!("Refusing to extract outside of the target: {}", filename),
+            }
+        }
+    } else {
+        output_path.push(
+            Path::new(filename)
+                .file_name()
+                .context(format!("Invalid file name: {}", filename))?,
+        );
+    }
+
+    Ok(output_path)
+}
+
 /// Add files to an existing archive
 pub fn add(
     _archive_path: &str,
-- 
2.43.0


From 9433fdd827f12de58261b0592028e0632b60c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:03 +0000
Subject: [PATCH 13/22] fix: extracting all files fails when a file could not
 be extracted

---
 storm-cli/src/commands/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index 5e26e45..0eb4c24 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -111,12 +111,14 @@ pub fn extract(
         let output_dir = output.unwrap_or(".");
         let file_entries = archive.list()?;
         let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
+        let mut failed = 0usize;
 
         for filename in &files {
             let data = match archive.read_file(filename) {
                 Ok(data) => data,
                 Err(e) => {
                     eprintln!("Failed to extract {}: {}", filename, e);
+                    failed += 1;
                     continue;
                 }
             };
@@ -135,6 +137,10 @@ pub fn extract(
             }
         }
 
+        if failed > 0 {
+            anyhow::bail!("Failed to extract {} of {} files", failed, files.len());
+        }
+
         if !global_opts.quiet {
             println!("{} Extracted {} files", "✓".green(), files.len());
         }
-- 
2.43.0


From 11932549a9eb744c4ed7e316c4cec120d36609dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:40 +0000
Subject: [PATCH 14/22] fix: archive verify fails when an MD5 checksum does not
 match

---
 storm-cli/src/commands/archive.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index ce1c57f..4e1f92c 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -212,6 +212,18 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
             het_table_valid: md5_status.het_table_valid,
             bet_table_valid: md5_status.bet_table_valid,
         });
+
+        let all_valid = md5_status.header_valid
+            && md5_status.hash_table_valid
+            && md5_status.block_table_valid
+            && md5_status.hi_block_table_valid
+            && md5_status.het_table_valid
+            && md5_status.bet_table_valid;
+        if !all_valid {
+            verification_results
+                .errors
+                .push(("(tables)".to_string(), "MD5 checksum mismatch".to_string()));
+        }
     }
 
     // Check digital signature
-- 
2.43.0


From e2c75c38290ffc7367aee2aa5652ae01c5335791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:21 +0000
Subject: [PATCH 15/22] fix: sector checksums cover the stored sector, as the
 reader expects

---
 mopaq/src/builder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index fb2144a..b94fd8f 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1021,13 +1021,6 @@ impl ArchiveBuilder {
 
                 *offset = (data_start + sector_data.len()) as u32;
 
-                // Calculate CRC for uncompressed sector if enabled
-                if self.generate_crcs {
-                    // MPQ uses ADLER32 for sector checksums
-                    let crc = adler::adler32_slice(sector_bytes);
-                    sector_crcs.push(crc);
-                }
-
                 // Compress sector if needed
                 let compressed_sector = if *compression != 0 && !sector_bytes.is_empty() {
                     // The compress function now handles the compression byte prefix
@@ -1045,6 +1038,13 @@ impl ArchiveBuilder {
                     sector_bytes.to_vec()
                 };
 
+                // Calculate CRC of the sector as it is stored (before encryption) if enabled
+                if self.generate_crcs {
+                    // MPQ uses ADLER32 for sector checksums
+                    let crc = adler::adler32_slice(&compressed_sector);
+                    sector_crcs.push(crc);
+                }
+
                 sector_data.extend_from_slice(&compressed_sector);
             }
 
-- 
2.43.0


From 7870f7c7c4d2b18b1b4d7c50d4ea663b930dba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:51 +0000
Subject: [PATCH 16/22] fix: weak signatures can be valid (keep the leading
 zero byte of the PKCS#1 padding)

---
 mopaq/src/crypto/signature.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index c614b4f..5ab31d3 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -273,7 +273,7 @@ pub fn verify_weak_signature_stormlib<R: Read + std::io::Seek>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_padded_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -316,7 +316,7 @@ pub fn verify_weak_signature<R: Read>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_padded_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -465,6 +465,15 @@ fn verify_mpq_strong_signature_padding(decrypted: &[u8], expected_hash: &[u8]) -
     Ok(true)
 }
 
+/// Big-endian bytes of a decrypted signature in its full length
+/// (PKCS#1 padding starts with a zero byte, which the plain conversion drops)
+fn to_padded_bytes_be(value: &BigUint, size: usize) -> Vec<u8> {
+    let bytes = value.to_bytes_be();
+    let mut padded = vec![0u8; size.saturating_sub(bytes.len())];
+    padded.extend_from_slice(&bytes);
+    padded
+}
+
 /// Reverse byte order (little-endian to big-endian conversion)
 fn reverse_bytes(data: &[u8]) -> Vec<u8> {
     data.iter().rev().copied().collect()
-- 
2.43.0


From 41e337db8adbbe6de4330a99b62bce5b951fd6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:51 +0000
Subject: [PATCH 17/22] fix: archive verify fails when the digital signature is
 invalid

---
 storm-cli/src/commands/archive.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 4e1f92c..61a91aa 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -230,6 +230,16 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
     verification_results.header_checks.signature_status =
         Some(archive_info.signature_status.clone());
 
+    if matches!(
+        archive_info.signature_status,
+        SignatureStatus::WeakInvalid | SignatureStatus::StrongInvalid
+    ) {
+        verification_results.errors.push((
+            "(signature)".to_string(),
+            "Digital signature is not valid".to_string(),
+        ));
+    }
+
     // Verify individual files
     let file_entries = archive.list()?;
     let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
-- 
2.43.0


From 7d9e3fd6a14fd4f274babbbafb39b0b55613a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:44 +0000
Subject: [PATCH 18/22] fix: verify a HET hit with the full name hash of the
 BET table

---
 mopaq/src/archive.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7deb01e..ff29bc6 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type},
+    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -876,7 +876,13 @@ impl Archive {
         if let (Some(het), Some(bet)) = (&self.het_table, &self.bet_table) {
             // Check if tables have actual entries
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
-                if let Some(file_index) = het.find_file(filename) {
+                // HET only matches a few bits of the name hash: the full hash in the
+                // BET table decides whether it is this file
+                let name_hash = jenkins_hash(filename);
+                if let Some(file_index) = het
+                    .find_file(filename)
+                    .filter(|&index| bet.bet_hashes.get(index as usize) == Some(&name_hash))
+                {
                     if let Some(bet_info) = bet.get_file_info(file_index) {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
-- 
2.43.0


From a77990e438da9f9c482608db93047568d28e27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:05 +0000
Subject: [PATCH 19/22] fix: BET entries wider than 64 bits overflowed when
 packed and unpacked

---
 mopaq/src/builder.rs    | 43 ++++++++++++++++++-----------------------
 mopaq/src/tables/bet.rs | 37 +++++++++++++++++++----------------
 2 files changed, 39 insertions(+), 41 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index b94fd8f..ac4d767 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1488,7 +1488,7 @@ impl ArchiveBuilder {
                     self.write_bit_entry(
                         &mut hash_table,
                         current_index,
-                        hash_entry,
+                        hash_entry as u128,
                         hash_entry_size + index_size,
                     )?;
 
@@ -1538,7 +1538,7 @@ impl ArchiveBuilder {
         &self,
         data: &mut [u8],
         index: usize,
-        value: u64,
+        value: u128,
         bit_size: u32,
     ) -> Result<()> {
         let bit_offset = index * bit_size as usize;
@@ -1549,7 +1549,7 @@ impl ArchiveBuilder {
         let bits_needed = bit_shift + bit_size as usize;
         let bytes_needed = bits_needed.div_ceil(8);
 
-        if byte_offset + bytes_needed > data.len() {
+        if byte_offset + bytes_needed > data.len() || bytes_needed > 16 {
             log::error!(
                 "Bit entry out of bounds: index={}, bit_size={}, bit_offset={}, byte_offset={}, bytes_needed={}, data.len()={}",
                 index,
@@ -1562,20 +1562,17 @@ impl ArchiveBuilder {
             return Err(Error::invalid_format("Bit entry out of bounds"));
         }
 
-        // Read existing bits (limit to 8 bytes for u64)
-        let mut existing = 0u64;
-        let max_bytes = bytes_needed.min(8);
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                existing |= (data[byte_offset + i] as u64) << (i * 8);
-            }
+        // Read existing bits
+        let mut existing = 0u128;
+        for i in 0..bytes_needed {
+            existing |= (data[byte_offset + i] as u128) << (i * 8);
         }
 
         // Clear the bits we're about to write
-        let value_mask = if bit_size >= 64 {
-            u64::MAX
+        let value_mask = if bit_size >= 128 {
+            u128::MAX
         } else {
-            (1u64 << bit_size) - 1
+            (1u128 << bit_size) - 1
         };
         let mask = value_mask << bit_shift;
         existing &= !mask;
@@ -1583,11 +1580,9 @@ impl ArchiveBuilder {
         // Write the new value
         existing |= (value & value_mask) << bit_shift;
 
-        // Write back (limit to 8 bytes for u64)
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                data[byte_offset + i] = (existing >> (i * 8)) as u8;
-            }
+        // Write back
+        for i in 0..bytes_needed {
+            data[byte_offset + i] = (existing >> (i * 8)) as u8;
         }
 
         Ok(())
@@ -1754,11 +1749,11 @@ impl ArchiveBuilder {
                 let flag_index = flag_index_map.get(&entry.flags).unwrap();
 
                 // Pack entry data
-                let mut entry_bits = 0u64;
-                entry_bits |= (entry.file_pos as u64) << bit_index_file_pos;
-                entry_bits |= (entry.file_size as u64) << bit_index_file_size;
-                entry_bits |= (entry.compressed_size as u64) << bit_index_cmp_size;
-                entry_bits |= (*flag_index as u64) << bit_index_flag_index;
+                let mut entry_bits = 0u128;
+                entry_bits |= (entry.file_pos as u128) << bit_index_file_pos;
+                entry_bits |= (entry.file_size as u128) << bit_index_file_size;
+                entry_bits |= (entry.compressed_size as u128) << bit_index_cmp_size;
+                entry_bits |= (*flag_index as u128) << bit_index_flag_index;
 
                 // Write to file table
                 self.write_bit_entry(&mut file_table, i, entry_bits, table_entry_size)?;
@@ -1820,7 +1815,7 @@ impl ArchiveBuilder {
         // Write BET hashes (bit-packed)
         let mut hash_bytes = vec![0u8; bet_hash_array_size as usize];
         for (i, &hash) in bet_hashes.iter().enumerate() {
-            self.write_bit_entry(&mut hash_bytes, i, hash, bet_hash_size)?;
+            self.write_bit_entry(&mut hash_bytes, i, hash as u128, bet_hash_size)?;
         }
         result.extend_from_slice(&hash_bytes);
 
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index c15b61a..c1f6a55 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -267,36 +267,39 @@ impl BetTable {
     }
 
     /// Read a table entry from bit-packed data
-    fn read_table_entry(&self, index: usize) -> Option<u64> {
-        let bit_offset = index * self.header.table_entry_size as usize;
+    fn read_table_entry(&self, index: usize) -> Option<u128> {
+        let entry_size = self.header.table_entry_size as usize;
+        let bit_offset = index * entry_size;
         let byte_offset = bit_offset / 8;
         let bit_shift = bit_offset % 8;
 
-        if byte_offset + 8 > self.file_table.len() {
+        // Read enough bytes to get the full entry
+        let bytes_needed = (bit_shift + entry_size).div_ceil(8);
+        if entry_size >= 128 || bytes_needed > 16 {
             return None;
         }
+        let bytes = self
+            .file_table
+            .get(byte_offset..byte_offset + bytes_needed)?;
 
-        // Read enough bytes to get the full entry
-        let mut value = 0u64;
-        let bytes_needed = (bit_shift + self.header.table_entry_size as usize)
-            .div_ceil(8)
-            .min(8);
-
-        for i in 0..bytes_needed {
-            if byte_offset + i < self.file_table.len() {
-                value |= (self.file_table[byte_offset + i] as u64) << (i * 8);
-            }
+        let mut value = 0u128;
+        for (i, &byte) in bytes.iter().enumerate() {
+            value |= (byte as u128) << (i * 8);
         }
 
         // Shift and mask to get the actual entry
-        let entry = (value >> bit_shift) & ((1u64 << self.header.table_entry_size) - 1);
+        let entry = (value >> bit_shift) & ((1u128 << entry_size) - 1);
         Some(entry)
     }
 
     /// Extract bits from a value
-    fn extract_bits(&self, value: u64, bit_offset: u32, bit_count: u32) -> u64 {
-        let mask = (1u64 << bit_count) - 1;
-        (value >> bit_offset) & mask
+    fn extract_bits(&self, value: u128, bit_offset: u32, bit_count: u32) -> u64 {
+        let mask = if bit_count >= 64 {
+            u64::MAX
+        } else {
+            (1u64 << bit_count) - 1
+        };
+        (value.checked_shr(bit_offset).unwrap_or(0) as u64) & mask
     }
 }
 
-- 
2.43.0


From 3c70b743d367ca3f6d5470d7840166e72e918ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:21 +0000
Subject: [PATCH 20/22] fix: BET positions beyond 4GB lost their high bits

---
 mopaq/src/builder.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index ac4d767..8ef46e2 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -798,7 +798,7 @@ impl ArchiveBuilder {
 
         // Create BET table
         let bet_table_pos = writer.stream_position()?;
-        let (bet_data, _bet_header) = self.create_bet_table(&block_table)?;
+        let (bet_data, _bet_header) = self.create_bet_table(&block_table, hi_block_table.as_ref())?;
         let (bet_table_size, bet_table_md5) = self.write_bet_table(writer, &bet_data, true)?;
 
         // For compatibility, also write classic tables
@@ -1653,9 +1653,19 @@ impl ArchiveBuilder {
     }
 
     /// Create BET table data
-    fn create_bet_table(&self, block_table: &BlockTable) -> Result<(Vec<u8>, BetHeader)> {
+    fn create_bet_table(
+        &self,
+        block_table: &BlockTable,
+        hi_block_table: Option<&HiBlockTable>,
+    ) -> Result<(Vec<u8>, BetHeader)> {
         let file_count = self.pending_files.len() as u32;
 
+        // Positions beyond 4GB have their high bits in the hi-block table
+        let full_file_pos = |i: usize, entry: &BlockEntry| {
+            let high_bits = hi_block_table.map_or(0, |hi_table| hi_table.get_file_pos_high(i));
+            (high_bits << 32) | entry.file_pos as u64
+        };
+
         // Analyze block table to determine optimal bit widths
         let mut max_file_pos = 0u64;
         let mut max_file_size = 0u64;
@@ -1664,7 +1674,7 @@ impl ArchiveBuilder {
 
         for i in 0..file_count as usize {
             if let Some(entry) = block_table.get(i) {
-                max_file_pos = max_file_pos.max(entry.file_pos as u64);
+                max_file_pos = max_file_pos.max(full_file_pos(i, entry));
                 max_file_size = max_file_size.max(entry.file_size as u64);
                 max_compressed_size = max_compressed_size.max(entry.compressed_size as u64);
                 unique_flags.insert(entry.flags);
@@ -1750,7 +1760,7 @@ impl ArchiveBuilder {
 
                 // Pack entry data
                 let mut entry_bits = 0u128;
-                entry_bits |= (entry.file_pos as u128) << bit_index_file_pos;
+                entry_bits |= (full_file_pos(i, entry) as u128) << bit_index_file_pos;
                 entry_bits |= (entry.file_size as u128) << bit_index_file_size;
                 entry_bits |= (entry.compressed_size as u128) << bit_index_cmp_size;
                 entry_bits |= (*flag_index as u128) << bit_index_flag_index;
-- 
2.43.0


From 02c44163240217051a86415dd96c4a3b1f97dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:22 +0000
Subject: [PATCH 21/22] fix: sizes and positions that do not fit their field
 were stored truncated

---
 mopaq/src/builder.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 8ef46e2..931fdf9 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -667,8 +667,8 @@ impl ArchiveBuilder {
             // Add to block table and hi-block table if needed
             let block_entry = BlockEntry {
                 file_pos: file_pos as u32, // Low 32 bits
-                compressed_size: compressed_size as u32,
-                file_size: file_data.len() as u32,
+                compressed_size: Self::size_field(compressed_size)?,
+                file_size: Self::size_field(file_data.len())?,
                 flags: flags | BlockEntry::FLAG_EXISTS,
             };
 
@@ -709,6 +709,11 @@ impl ArchiveBuilder {
 
         // Calculate archive size
         let archive_size = writer.stream_position()?;
+        if self.version == FormatVersion::V1 && archive_size > u32::MAX as u64 {
+            return Err(Error::invalid_format(
+                "Archive too large for format version 1 (4GB)",
+            ));
+        }
 
         // Write header at the beginning
         writer.seek(SeekFrom::Start(0))?;
@@ -772,8 +777,8 @@ impl ArchiveBuilder {
             // Add to block table
             let block_entry = BlockEntry {
                 file_pos: file_pos as u32, // Low 32 bits
-                compressed_size: compressed_size as u32,
-                file_size: file_data.len() as u32,
+                compressed_size: Self::size_field(compressed_size)?,
+                file_size: Self::size_field(file_data.len())?,
                 flags: flags | BlockEntry::FLAG_EXISTS,
             };
 
@@ -798,7 +803,8 @@ impl ArchiveBuilder {
 
         // Create BET table
         let bet_table_pos = writer.stream_position()?;
-        let (bet_data, _bet_header) = self.create_bet_table(&block_table, hi_block_table.as_ref())?;
+        let (bet_data, _bet_header) =
+            self.create_bet_table(&block_table, hi_block_table.as_ref())?;
         let (bet_table_size, bet_table_md5) = self.write_bet_table(writer, &bet_data, true)?;
 
         // For compatibility, also write classic tables
@@ -894,6 +900,11 @@ impl ArchiveBuilder {
         Ok(())
     }
 
+    /// A file size as stored in the block table
+    fn size_field(size: usize) -> Result<u32> {
+        u32::try_from(size).map_err(|_| Error::invalid_format("File too large (4GB or more)"))
+    }
+
     /// Write a single file to the archive
     fn write_file<W: Write>(
         &self,
-- 
2.43.0


From ff0bff50fac2c9cbcccb95442a6ce63c8c7e8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:41 +0000
Subject: [PATCH 22/22] fix: zlib data that ends before its stream does is an
 error, not shorter content

---
 mopaq/src/compression/algorithms/zlib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mopaq/src/compression/algorithms/zlib.rs b/mopaq/src/compression/algorithms/zlib.rs
index 19bd08c..dbdcfe1 100644
--- a/mopaq/src/compression/algorithms/zlib.rs
+++ b/mopaq/src/compression/algorithms/zlib.rs
@@ -26,6 +26,14 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
 
     match decoder.read_to_end(&mut decompressed) {
         Ok(_) => {
+            // The decoder takes the end of its input for the end of the stream. A complete
+            // stream ends with the checksum of the data.
+            let used = decoder.total_in() as usize;
+            let checksum = adler::adler32_slice(&decompressed).to_be_bytes();
+            if !data[..used].ends_with(&checksum) {
+                return Err(Error::compression("Zlib data ends before the stream does"));
+            }
+
             if decompressed.len() != expected_size {
                 log::debug!(
                     "Decompressed size mismatch: expected {}, got {} (this is common in some MPQ files)",
-- 
2.43.0

