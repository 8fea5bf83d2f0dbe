From b9b6545f323c03dcaae178ecf426462479034e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:43 +0000
Subject: [PATCH 01/58] fix: never emit a compressed unit as long as its
 contents

compress() compared the stream without its method byte, so a unit could be
stored with exactly its uncompressed length; readers treat such a sector as
stored and return the compressed bytes.
---
 mopaq/src/compression/compress.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 0582737..4b2c4d8 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -13,9 +13,10 @@ pub fn compress(data: &[u8], method: u8) -> Result<Vec<u8>> {
     // Check if compression actually reduces size
     let compressed = compress_internal(data, method)?;
 
-    // MPQ format requires that compression saves at least 2 bytes
-    // If it doesn't, we return the original data uncompressed
-    if compressed.len() >= data.len() {
+    // The stored form is the method byte plus the stream; readers tell a compressed unit
+    // from a stored one by it being shorter than its contents. If it isn't, we return
+    // the original data uncompressed
+    if compressed.len() + 1 >= data.len() {
         // Return uncompressed data (no compression byte prefix)
         Ok(data.to_vec())
     } else {
-- 
2.43.0


From 97488616cafd0245e199e2532469b6da9229d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:47 +0000
Subject: [PATCH 02/58] fix: sparse encoder must not emit the end marker for
 127-byte zero runs

---
 mopaq/src/compression/algorithms/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index fa82cd8..f4d4490 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -59,7 +59,8 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
         if zero_count > 0 {
             // Encode runs of zeros
             while zero_count > 0 {
-                let chunk = zero_count.min(0x7F);
+                // 0x80 | 0x7F would be the end marker
+                let chunk = zero_count.min(0x7E);
                 output.push(0x80 | (chunk as u8));
                 zero_count -= chunk;
             }
-- 
2.43.0


From 69553d7bbc8bbc24e98c41015c9e587011f3ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:53 +0000
Subject: [PATCH 03/58] fix: mark multi-sector files as compressed whenever a
 sector offset table is written

Files of more than one sector that were stored, or in which no sector got
smaller, were written with an offset table but without the flag that tells
readers about it, so they were read back as the table plus the data.
---
 mopaq/src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c2fe5d8..9afa3ca 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -987,6 +987,10 @@ impl ArchiveBuilder {
             // Multi-sector file
             let sector_count = file_data.len().div_ceil(*sector_size);
 
+            // A sector offset table is always written; readers only expect one when the
+            // compression flag is set, even if no sector got smaller
+            flags |= BlockEntry::FLAG_COMPRESS;
+
             // Set CRC flag early if enabled (needed for encryption key calculation)
             if self.generate_crcs {
                 flags |= BlockEntry::FLAG_SECTOR_CRC;
@@ -1031,7 +1035,6 @@ impl ArchiveBuilder {
                     let compressed = compress(sector_bytes, *compression)?;
                     if compressed != *sector_bytes {
                         // Compression was beneficial and the data now includes the method byte
-                        flags |= BlockEntry::FLAG_COMPRESS;
                         compressed
                     } else {
                         // Compression not beneficial, returned original data
-- 
2.43.0


From 5eeb4c76670eea544a28f4d60e896c304b07f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:31 +0000
Subject: [PATCH 04/58] fix: verify sector checksums against the decompressed
 sector and report mismatches

The builder stores the checksum of the uncompressed sector; the reader compared
it with the compressed bytes and only logged, so corruption of a multi-sector
file was never reported although single-unit files report it.
---
 mopaq/src/archive.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7deb01e..b4f5e26 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1453,24 +1453,6 @@ impl Archive {
                 decrypt_file_data(&mut sector_data, sector_key);
             }
 
-            // Validate CRC if present - MUST be done AFTER decryption but BEFORE decompression
-            if let Some(ref crcs) = sector_crcs {
-                let expected_crc = crcs[i];
-                // MPQ uses ADLER32 for sector checksums, calculated on the raw (possibly compressed) data
-                let actual_crc = adler::adler32_slice(&sector_data);
-
-                if actual_crc != expected_crc {
-                    log::error!(
-                        "CRC mismatch for sector {}: expected {:08x}, got {:08x}",
-                        i,
-                        expected_crc,
-                        actual_crc
-                    );
-                    // For now, just log the error and continue
-                    // Some MPQ files have incorrect CRCs
-                }
-            }
-
             // Decompress sector
             let decompressed_sector =
                 if file_info.is_compressed() && sector_size_compressed < expected_size {
@@ -1488,6 +1470,21 @@ impl Archive {
                     sector_data[..expected_size.min(sector_data.len())].to_vec()
                 };
 
+            // Validate CRC if present
+            if let Some(ref crcs) = sector_crcs {
+                let expected_crc = crcs[i];
+                // MPQ uses ADLER32 for sector checksums, calculated on the decompressed sector
+                let actual_crc = adler::adler32_slice(&decompressed_sector);
+
+                if actual_crc != expected_crc {
+                    return Err(Error::ChecksumMismatch {
+                        file: file_info.filename.clone(),
+                        expected: expected_crc,
+                        actual: actual_crc,
+                    });
+                }
+            }
+
             decompressed_data.extend_from_slice(&decompressed_sector);
         }
 
-- 
2.43.0


From 899ffbb9742eb2c87ac269cddbb2d7a1b9cf1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:35 +0000
Subject: [PATCH 05/58] fix: decrypt uncompressed multi-sector files sector by
 sector

---
 mopaq/src/archive.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index b4f5e26..35378a5 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1265,7 +1265,15 @@ impl Archive {
                 if data.len() <= 64 {
                     log::debug!("Before decrypt: {:02X?}", &data);
                 }
-                decrypt_file_data(&mut data, key);
+                if file_info.is_single_unit() {
+                    decrypt_file_data(&mut data, key);
+                } else {
+                    // Uncompressed multi-sector file: every sector has its own key
+                    let sector_size = self.header.sector_size();
+                    for (i, sector) in data.chunks_mut(sector_size).enumerate() {
+                        decrypt_file_data(sector, key.wrapping_add(i as u32));
+                    }
+                }
                 if data.len() <= 64 {
                     log::debug!("After decrypt: {:02X?}", &data);
                 }
-- 
2.43.0


From bd637ccca89728f2d4c037ca67d2ee52684f120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:23 +0000
Subject: [PATCH 06/58] fix: read and write BET entries field by field

Entries wider than 64 bits (positions and sizes of a few MB suffice) overflowed
the packing word, and entries within 8 bytes of the end of the file table were
reported as missing.
---
 mopaq/src/builder.rs    | 24 ++++++++-----
 mopaq/src/tables/bet.rs | 74 ++++++++++++++++-------------------------
 2 files changed, 43 insertions(+), 55 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 9afa3ca..c42fb44 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1752,15 +1752,21 @@ impl ArchiveBuilder {
                 // Get flag index
                 let flag_index = flag_index_map.get(&entry.flags).unwrap();
 
-                // Pack entry data
-                let mut entry_bits = 0u64;
-                entry_bits |= (entry.file_pos as u64) << bit_index_file_pos;
-                entry_bits |= (entry.file_size as u64) << bit_index_file_size;
-                entry_bits |= (entry.compressed_size as u64) << bit_index_cmp_size;
-                entry_bits |= (*flag_index as u64) << bit_index_flag_index;
-
-                // Write to file table
-                self.write_bit_entry(&mut file_table, i, entry_bits, table_entry_size)?;
+                // Write each field to the file table (an entry may be wider than 64 bits)
+                let entry_start = i * table_entry_size as usize;
+                for (bit_index, value, bit_count) in [
+                    (bit_index_file_pos, entry.file_pos, bit_count_file_pos),
+                    (bit_index_file_size, entry.file_size, bit_count_file_size),
+                    (bit_index_cmp_size, entry.compressed_size, bit_count_cmp_size),
+                    (bit_index_flag_index, *flag_index, bit_count_flag_index),
+                ] {
+                    for bit in 0..bit_count as usize {
+                        if value >> bit & 1 != 0 {
+                            let target = entry_start + bit_index as usize + bit;
+                            file_table[target / 8] |= 1 << (target % 8);
+                        }
+                    }
+                }
 
                 // Generate BET hash (Jenkins hash of filename)
                 let hash = jenkins_hash(&pending_file.archive_name);
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index c15b61a..2e4297b 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -226,37 +226,34 @@ impl BetTable {
             return None;
         }
 
-        // Read bit-packed entry
-        let entry_bits = self.read_table_entry(index as usize)?;
-
         // Extract fields
-        let file_pos = self.extract_bits(
-            entry_bits,
+        let file_pos = self.read_field(
+            index,
             self.header.bit_index_file_pos,
             self.header.bit_count_file_pos,
-        );
-        let file_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let file_size = self.read_field(
+            index,
             self.header.bit_index_file_size,
             self.header.bit_count_file_size,
-        );
-        let cmp_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let cmp_size = self.read_field(
+            index,
             self.header.bit_index_cmp_size,
             self.header.bit_count_cmp_size,
-        );
-        let flag_index = self.extract_bits(
-            entry_bits,
+        )?;
+        let flag_index = self.read_field(
+            index,
             self.header.bit_index_flag_index,
             self.header.bit_count_flag_index,
-        ) as u32;
+        )?;
 
         // Get flags
-        let flags = if flag_index < self.header.flag_count {
-            self.file_flags[flag_index as usize]
-        } else {
-            0
-        };
+        let flags = self
+            .file_flags
+            .get(flag_index as usize)
+            .copied()
+            .unwrap_or(0);
 
         Some(BetFileInfo {
             file_pos,
@@ -266,37 +263,22 @@ impl BetTable {
         })
     }
 
-    /// Read a table entry from bit-packed data
-    fn read_table_entry(&self, index: usize) -> Option<u64> {
-        let bit_offset = index * self.header.table_entry_size as usize;
-        let byte_offset = bit_offset / 8;
-        let bit_shift = bit_offset % 8;
-
-        if byte_offset + 8 > self.file_table.len() {
+    /// Read one field of a bit-packed table entry
+    fn read_field(&self, index: u32, bit_index: u32, bit_count: u32) -> Option<u64> {
+        if bit_count > 64 {
             return None;
         }
 
-        // Read enough bytes to get the full entry
+        let start = (index as usize)
+            .checked_mul(self.header.table_entry_size as usize)?
+            .checked_add(bit_index as usize)?;
         let mut value = 0u64;
-        let bytes_needed = (bit_shift + self.header.table_entry_size as usize)
-            .div_ceil(8)
-            .min(8);
-
-        for i in 0..bytes_needed {
-            if byte_offset + i < self.file_table.len() {
-                value |= (self.file_table[byte_offset + i] as u64) << (i * 8);
-            }
+        for bit in 0..bit_count as usize {
+            let source = start.checked_add(bit)?;
+            let byte = *self.file_table.get(source / 8)?;
+            value |= ((byte >> (source % 8)) as u64 & 1) << bit;
         }
-
-        // Shift and mask to get the actual entry
-        let entry = (value >> bit_shift) & ((1u64 << self.header.table_entry_size) - 1);
-        Some(entry)
-    }
-
-    /// Extract bits from a value
-    fn extract_bits(&self, value: u64, bit_offset: u32, bit_count: u32) -> u64 {
-        let mask = (1u64 << bit_count) - 1;
-        (value >> bit_offset) & mask
+        Some(value)
     }
 }
 
-- 
2.43.0


From 90ea2d974a07516f05452800d992f66aef8a08ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:43 +0000
Subject: [PATCH 07/58] fix: decrypt the trailing bytes of HET/BET tables

The writer encrypts them; the reader left them encrypted, so the last name hash
of a BET table whose length is not a multiple of four was wrong.
---
 mopaq/src/tables/common.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index ffa5809..d35603e 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -43,4 +43,15 @@ pub(crate) fn decrypt_table_data(data: &mut [u8], key: u32) {
         let bytes = val.to_le_bytes();
         data[i * 4..(i + 1) * 4].copy_from_slice(&bytes);
     }
+
+    // Trailing bytes are encrypted as one more dword, see ArchiveBuilder::encrypt_data
+    let full = u32_buffer.len() * 4;
+    let remainder = &mut data[full..];
+    if !remainder.is_empty() {
+        let mut last_bytes = [0u8; 4];
+        last_bytes[..remainder.len()].copy_from_slice(remainder);
+        let mut last_dword = [u32::from_le_bytes(last_bytes)];
+        decrypt_block(&mut last_dword, key.wrapping_add(u32_buffer.len() as u32));
+        remainder.copy_from_slice(&last_dword[0].to_le_bytes()[..remainder.len()]);
+    }
 }
-- 
2.43.0


From 28507985ce81df0099250d3a32a7685571758073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:48 +0000
Subject: [PATCH 08/58] fix: write compressed HET/BET tables that can be read
 back

The compression type byte was written twice, and the declared size of the HET
table data was smaller than the data, so compressed tables never loaded.
---
 mopaq/src/builder.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c42fb44..b1f5f62 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1503,7 +1503,7 @@ impl ArchiveBuilder {
 
         // Calculate sizes
         let het_header_size = std::mem::size_of::<HetHeader>();
-        let data_size = het_header_size as u32 + hash_table_size + file_indices_size as u32;
+        let data_size = het_header_size as u32 + actual_hash_table_size + file_indices_size as u32;
         let table_size = 12 + data_size; // Extended header (12 bytes) + data
 
         // Update header with final size
@@ -1630,11 +1630,8 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // compress() already prepends the compression type byte
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
@@ -1861,11 +1858,8 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // compress() already prepends the compression type byte
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
-- 
2.43.0


From 92f0c429831ebee33b05e6ff40c7df9c041e7747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:16 +0000
Subject: [PATCH 09/58] fix: do not return another file for a partial HET hash
 match

A HET entry holds a few bits of the name hash; lookups of names that are not in
the archive, or of other files, could return the first file.
---
 mopaq/src/archive.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 35378a5..358748a 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type},
+    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -876,7 +876,12 @@ impl Archive {
         if let (Some(het), Some(bet)) = (&self.het_table, &self.bet_table) {
             // Check if tables have actual entries
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
-                if let Some(file_index) = het.find_file(filename) {
+                // The HET table only stores part of the name hash, so a hit may belong to
+                // another name; the BET table has the full hash
+                let file_index = het.find_file(filename).filter(|&index| {
+                    bet.bet_hashes.get(index as usize) == Some(&jenkins_hash(filename))
+                });
+                if let Some(file_index) = file_index {
                     if let Some(bet_info) = bet.get_file_info(file_index) {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
-- 
2.43.0


From 0449a4bc4e83ad35cb93195c17b2654a40637f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:17 +0000
Subject: [PATCH 10/58] fix: keep PKWare units within the size pklib can
 round-trip and check the decoded size

---
 mopaq/src/compression/algorithms/pkware.rs | 10 ++++++++++
 mopaq/src/compression/compress.rs          |  4 ++++
 mopaq/src/compression/decompress.rs        | 12 +++++++++++-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/pkware.rs b/mopaq/src/compression/algorithms/pkware.rs
index 27ec900..b25e040 100644
--- a/mopaq/src/compression/algorithms/pkware.rs
+++ b/mopaq/src/compression/algorithms/pkware.rs
@@ -3,13 +3,23 @@
 use crate::{Error, Result};
 use pklib::{explode_bytes, implode_bytes, CompressionMode, DictionarySize};
 
+/// Largest unit pklib encodes and decodes correctly: both sides lose data once a stream
+/// crosses their 8 KB working buffers (the default MPQ sector is 4 KB)
+pub(crate) const MAX_UNIT_SIZE: usize = 0x1000;
+
 /// Compress data using PKWare DCL algorithm
+///
+/// Data beyond [`MAX_UNIT_SIZE`] is returned unchanged, so that it is stored uncompressed.
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
     // Handle empty data
     if data.is_empty() {
         return Ok(Vec::new());
     }
 
+    if data.len() > MAX_UNIT_SIZE {
+        return Ok(data.to_vec());
+    }
+
     // Use ASCII mode with 2KB dictionary as default for MPQ archives
     // This provides good compression ratio for most data types
     implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 4b2c4d8..2f6fecc 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -97,6 +97,10 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     } else if has_sparse {
         current_data = algorithms::sparse::compress(&current_data)?;
     } else if has_pkware {
+        if current_data.len() > algorithms::pkware::MAX_UNIT_SIZE {
+            // Too large for PKWare: hand back the input so that it is stored uncompressed
+            return Ok(data.to_vec());
+        }
         current_data = algorithms::pkware::compress(&current_data)?;
     }
 
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0330108..a918adc 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -33,7 +33,17 @@ pub fn decompress(data: &[u8], method: u8, decompressed_size: usize) -> Result<V
         CompressionMethod::Lzma => algorithms::lzma::decompress(data, decompressed_size),
         CompressionMethod::Sparse => algorithms::sparse::decompress(data, decompressed_size),
         CompressionMethod::Implode => algorithms::implode::decompress(data, decompressed_size),
-        CompressionMethod::PKWare => algorithms::pkware::decompress(data, decompressed_size),
+        CompressionMethod::PKWare => {
+            let decompressed = algorithms::pkware::decompress(data, decompressed_size)?;
+            if decompressed.len() != decompressed_size {
+                return Err(Error::compression(format!(
+                    "PKWare decompressed size mismatch: expected {}, got {}",
+                    decompressed_size,
+                    decompressed.len()
+                )));
+            }
+            Ok(decompressed)
+        }
         CompressionMethod::Huffman => algorithms::huffman::decompress(data, decompressed_size),
         CompressionMethod::AdpcmMono => algorithms::adpcm::decompress_mono(data, decompressed_size),
         CompressionMethod::AdpcmStereo => {
-- 
2.43.0


From a199ec35e674ef52300889cf99fd4e664897d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:02 +0000
Subject: [PATCH 11/58] fix: decompress the bzip2 stage of ADPCM+bzip2 data,
 whose size is not the file size

---
 mopaq/src/compression/algorithms/bzip2.rs | 19 +++++++++++++------
 mopaq/src/compression/decompress.rs       |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index 6cb1ab7..2e4ac9e 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -8,12 +8,7 @@ use std::io::{Read, Write};
 
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
-    let mut decoder = BzDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
-
-    decoder
-        .read_to_end(&mut decompressed)
-        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+    let decompressed = decompress_unsized(data)?;
 
     if decompressed.len() != expected_size {
         return Err(Error::compression(format!(
@@ -26,6 +21,18 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     Ok(decompressed)
 }
 
+/// Decompress a BZip2 stream whose decompressed size is not known (an intermediate stage)
+pub(crate) fn decompress_unsized(data: &[u8]) -> Result<Vec<u8>> {
+    let mut decoder = BzDecoder::new(data);
+    let mut decompressed = Vec::new();
+
+    decoder
+        .read_to_end(&mut decompressed)
+        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+
+    Ok(decompressed)
+}
+
 /// Compress using BZip2
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
     let mut encoder = BzEncoder::new(Vec::new(), Compression::default());
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index a918adc..492e006 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -111,7 +111,7 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
         current_data = algorithms::zlib::decompress(&current_data, expected_size * 4)?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
-        current_data = algorithms::bzip2::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::bzip2::decompress_unsized(&current_data)?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
         current_data = algorithms::sparse::decompress(&current_data, expected_size * 4)?;
-- 
2.43.0


From ec60c1c30f61d14806908f6b3da73331ceddfe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:05 +0000
Subject: [PATCH 12/58] fix: multi-compression must apply exactly the stages
 its method byte names

---
 mopaq/src/compression/compress.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 2f6fecc..0351af7 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -58,14 +58,22 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     let has_bzip2 = (flags & flags::BZIP2) != 0;
     let has_sparse = (flags & flags::SPARSE) != 0;
 
+    if (flags & flags::IMPLODE) != 0 {
+        // Never label data with a stage that was not applied
+        return Err(Error::compression(
+            "PKWare Implode compression is not supported",
+        ));
+    }
+
     // We apply compressions in order: ADPCM, then others
     let mut current_data = data.to_vec();
 
     // Apply ADPCM first if requested
-    if has_adpcm_mono {
-        current_data = algorithms::adpcm::compress_mono(&current_data, 5)?;
-    } else if has_adpcm_stereo {
+    // (with both flags set, decompression assumes stereo)
+    if has_adpcm_stereo {
         current_data = algorithms::adpcm::compress_stereo(&current_data, 5)?;
+    } else if has_adpcm_mono {
+        current_data = algorithms::adpcm::compress_mono(&current_data, 5)?;
     }
 
     // Count remaining compressions
-- 
2.43.0


From 025bdcc673a847a63d9580c062c4f0f1650781cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:00 +0000
Subject: [PATCH 13/58] fix: keep the leading zero of the decrypted weak
 signature so that valid ones verify

---
 mopaq/src/crypto/signature.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index c614b4f..02c1d8e 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -273,7 +273,7 @@ pub fn verify_weak_signature_stormlib<R: Read + std::io::Seek>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_fixed_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -316,7 +316,7 @@ pub fn verify_weak_signature<R: Read>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_fixed_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -365,6 +365,14 @@ pub fn verify_strong_signature<R: Read>(
     verify_mpq_strong_signature_padding(&decrypted_bytes, &hash)
 }
 
+/// Big-endian bytes of an RSA block, with the leading zeros `to_bytes_be` strips
+fn to_fixed_bytes_be(value: &BigUint, size: usize) -> Vec<u8> {
+    let bytes = value.to_bytes_be();
+    let mut block = vec![0u8; size.saturating_sub(bytes.len())];
+    block.extend_from_slice(&bytes);
+    block
+}
+
 /// Verify PKCS#1 v1.5 padding for MD5
 fn verify_pkcs1_v15_md5(decrypted: &[u8], expected_hash: &[u8]) -> Result<bool> {
     // PKCS#1 v1.5 structure for MD5:
-- 
2.43.0


From 850144436f31900f7e9daeeefce891a1e6181fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:03 +0000
Subject: [PATCH 14/58] fix: do not allocate for table and file data that lies
 beyond the end of the archive

---
 mopaq/src/archive.rs      | 46 +++++++++++++++++++++------------------
 mopaq/src/io.rs           | 24 ++++++++++++++++++++
 mopaq/src/tables/bet.rs   |  8 +++----
 mopaq/src/tables/block.rs | 22 ++++++++-----------
 mopaq/src/tables/hash.rs  | 11 ++++------
 mopaq/src/tables/het.rs   |  8 +++----
 6 files changed, 68 insertions(+), 51 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 358748a..029a80c 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -13,6 +13,7 @@ use crate::{
     compression,
     crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
+    io::read_bytes_at,
     special_files,
     tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
     Error, Result,
@@ -539,10 +540,8 @@ impl Archive {
                 }
 
                 // Read raw table data
-                self.reader
-                    .seek(SeekFrom::Start(self.archive_offset + offset))?;
-                let mut table_data = vec![0u8; size as usize];
-                self.reader.read_exact(&mut table_data)?;
+                let table_offset = self.archive_offset.saturating_add(offset);
+                let table_data = read_bytes_at(&mut self.reader, table_offset, size)?;
 
                 // Calculate MD5
                 let mut hasher = Md5::new();
@@ -1253,12 +1252,13 @@ impl Archive {
         };
 
         // Read the file data
-        self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
-
         if file_info.is_single_unit() || !file_info.is_compressed() {
             // Single unit or uncompressed file - read directly
-            let mut data = vec![0u8; file_info.compressed_size as usize];
-            self.reader.read_exact(&mut data)?;
+            let mut data = read_bytes_at(
+                &mut self.reader,
+                file_info.file_pos,
+                file_info.compressed_size,
+            )?;
 
             // Decrypt if needed
             if file_info.is_encrypted() {
@@ -1360,10 +1360,12 @@ impl Archive {
         );
 
         // Read sector offset table
-        self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
-        let offset_table_size = (sector_count + 1) * 4;
-        let mut offset_data = vec![0u8; offset_table_size];
-        self.reader.read_exact(&mut offset_data)?;
+        let offset_table_size = sector_count.saturating_add(1).saturating_mul(4);
+        let mut offset_data = read_bytes_at(
+            &mut self.reader,
+            file_info.file_pos,
+            offset_table_size as u64,
+        )?;
 
         // Decrypt sector offset table if needed
         if file_info.is_encrypted() {
@@ -1395,8 +1397,11 @@ impl Archive {
 
             if first_data_offset >= expected_crc_table_start + expected_crc_table_size {
                 // CRC table follows the offset table
-                let mut crc_data = vec![0u8; expected_crc_table_size];
-                self.reader.read_exact(&mut crc_data)?;
+                let crc_data = read_bytes_at(
+                    &mut self.reader,
+                    file_info.file_pos + offset_table_size as u64,
+                    expected_crc_table_size as u64,
+                )?;
 
                 // CRC table is not encrypted
                 let mut crcs = Vec::with_capacity(sector_count);
@@ -1443,13 +1448,12 @@ impl Archive {
             let remaining = file_info.file_size as usize - decompressed_data.len();
             let expected_size = remaining.min(sector_size);
 
-            // Seek to sector data - offsets are absolute from file position
-            self.reader
-                .seek(SeekFrom::Start(file_info.file_pos + sector_start))?;
-
-            // Read sector data
-            let mut sector_data = vec![0u8; sector_size_compressed];
-            self.reader.read_exact(&mut sector_data)?;
+            // Read sector data - offsets are absolute from file position
+            let mut sector_data = read_bytes_at(
+                &mut self.reader,
+                file_info.file_pos.saturating_add(sector_start),
+                sector_size_compressed as u64,
+            )?;
 
             if i == 0 {
                 log::debug!(
diff --git a/mopaq/src/io.rs b/mopaq/src/io.rs
index 476fd75..f26d130 100644
--- a/mopaq/src/io.rs
+++ b/mopaq/src/io.rs
@@ -42,6 +42,30 @@ impl<R: Seek> Seek for BufferedMpqReader<R> {
     }
 }
 
+/// Read `size` bytes at `offset`, without allocating for data the reader does not have
+pub(crate) fn read_bytes_at<R: Read + Seek>(
+    reader: &mut R,
+    offset: u64,
+    size: u64,
+) -> std::io::Result<Vec<u8>> {
+    if size == 0 {
+        return Ok(Vec::new());
+    }
+
+    let length = reader.seek(SeekFrom::End(0))?;
+    if offset > length || size > length - offset {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            format!("{} bytes at offset {} lie beyond the end of the file", size, offset),
+        ));
+    }
+
+    reader.seek(SeekFrom::Start(offset))?;
+    let mut data = vec![0u8; size as usize];
+    reader.read_exact(&mut data)?;
+    Ok(data)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index 2e4297b..f765cd7 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -2,8 +2,9 @@
 
 use super::common::{decrypt_table_data, ReadLittleEndian};
 use crate::compression::decompress;
+use crate::io::read_bytes_at;
 use crate::{Error, Result};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Read, Seek};
 
 /// BET (Block Entry Table) for v3+ archives
 #[derive(Debug)]
@@ -73,11 +74,8 @@ impl BetTable {
         compressed_size: u64,
         key: u32,
     ) -> Result<Self> {
-        reader.seek(SeekFrom::Start(offset))?;
-
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes_at(reader, offset, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
diff --git a/mopaq/src/tables/block.rs b/mopaq/src/tables/block.rs
index 4cf8183..48014d1 100644
--- a/mopaq/src/tables/block.rs
+++ b/mopaq/src/tables/block.rs
@@ -2,8 +2,9 @@
 
 use super::common::ReadLittleEndian;
 use crate::crypto::{decrypt_block, hash_string, hash_type};
+use crate::io::read_bytes_at;
 use crate::{Error, Result};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Read, Seek};
 
 /// Block table entry (16 bytes)
 #[repr(C)]
@@ -109,13 +110,9 @@ impl BlockTable {
 
     /// Read and decrypt a block table from the archive
     pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> Result<Self> {
-        // Seek to block table position
-        reader.seek(SeekFrom::Start(offset))?;
-
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes_at(reader, offset, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(block table)", hash_type::FILE_KEY);
@@ -205,12 +202,11 @@ pub struct HiBlockTable {
 impl HiBlockTable {
     /// Read the hi-block table
     pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> Result<Self> {
-        reader.seek(SeekFrom::Start(offset))?;
-
-        let mut entries = Vec::with_capacity(size as usize);
-        for _ in 0..size {
-            entries.push(reader.read_u16_le()?);
-        }
+        let raw_data = read_bytes_at(reader, offset, size as u64 * 2)?;
+        let entries = raw_data
+            .chunks_exact(2)
+            .map(|chunk| u16::from_le_bytes([chunk[0], chunk[1]]))
+            .collect();
 
         Ok(Self { entries })
     }
diff --git a/mopaq/src/tables/hash.rs b/mopaq/src/tables/hash.rs
index 43800a8..8f0dc89 100644
--- a/mopaq/src/tables/hash.rs
+++ b/mopaq/src/tables/hash.rs
@@ -2,8 +2,9 @@
 
 use super::common::ReadLittleEndian;
 use crate::crypto::{decrypt_block, hash_string, hash_type};
+use crate::io::read_bytes_at;
 use crate::{Error, Result};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Read, Seek};
 
 /// Hash table entry (16 bytes)
 #[repr(C)]
@@ -95,13 +96,9 @@ impl HashTable {
             return Err(Error::hash_table("Hash table size must be power of 2"));
         }
 
-        // Seek to hash table position
-        reader.seek(SeekFrom::Start(offset))?;
-
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes_at(reader, offset, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(hash table)", hash_type::FILE_KEY);
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 731a0dc..7059bcf 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -3,8 +3,9 @@
 use super::common::{decrypt_table_data, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
+use crate::io::read_bytes_at;
 use crate::{Error, Result};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Read, Seek};
 
 /// HET (Hash Entry Table) for v3+ archives
 #[derive(Debug)]
@@ -63,11 +64,8 @@ impl HetTable {
         compressed_size: u64,
         key: u32,
     ) -> Result<Self> {
-        reader.seek(SeekFrom::Start(offset))?;
-
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes_at(reader, offset, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
-- 
2.43.0


From 49469ca4f7ea5781d54e97897dc1db8f3baa4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:50 +0000
Subject: [PATCH 15/58] fix: reject malformed header and table fields instead
 of panicking on them

---
 mopaq/src/archive.rs          | 35 ++++++++++++++++++++++++-----------
 mopaq/src/crypto/signature.rs |  6 +++---
 mopaq/src/header.rs           |  8 ++++++++
 mopaq/src/tables/bet.rs       | 17 +++++++++++++----
 mopaq/src/tables/het.rs       | 11 ++++++++---
 5 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 029a80c..a2714aa 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -374,7 +374,7 @@ impl Archive {
 
                         match HetTable::read(
                             &mut self.reader,
-                            self.archive_offset + het_pos,
+                            self.archive_offset.saturating_add(het_pos),
                             het_size,
                             key,
                         ) {
@@ -430,7 +430,7 @@ impl Archive {
 
                         match BetTable::read(
                             &mut self.reader,
-                            self.archive_offset + bet_pos,
+                            self.archive_offset.saturating_add(bet_pos),
                             bet_size,
                             key,
                         ) {
@@ -483,7 +483,7 @@ impl Archive {
         // Load hi-block table if present (v2+)
         if let Some(hi_block_pos) = self.header.hi_block_table_pos {
             if hi_block_pos != 0 {
-                let hi_block_offset = self.archive_offset + hi_block_pos;
+                let hi_block_offset = self.archive_offset.saturating_add(hi_block_pos);
                 self.hi_block_table = Some(HiBlockTable::read(
                     &mut self.reader,
                     hi_block_offset,
@@ -886,7 +886,7 @@ impl Archive {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
                             block_index: file_index as usize,
-                            file_pos: self.archive_offset + bet_info.file_pos,
+                            file_pos: self.archive_offset.saturating_add(bet_info.file_pos),
                             compressed_size: bet_info.compressed_size,
                             file_size: bet_info.file_size,
                             flags: bet_info.flags,
@@ -1294,6 +1294,9 @@ impl Archive {
                 // CRC is calculated on the decompressed data
                 let data_to_check = if file_info.is_compressed() {
                     // We need to decompress first to check CRC
+                    if data.is_empty() {
+                        return Err(Error::compression("Empty compressed data"));
+                    }
                     let compression_type = data[0];
                     let compressed_data = &data[1..];
                     compression::decompress(
@@ -1429,7 +1432,7 @@ impl Archive {
         }
 
         // Read and decompress each sector
-        let mut decompressed_data = Vec::with_capacity(file_info.file_size as usize);
+        let mut decompressed_data = Vec::new();
 
         for i in 0..sector_count {
             let sector_start = sector_offsets[i] as u64;
@@ -1445,7 +1448,7 @@ impl Archive {
             let sector_size_compressed = (sector_end - sector_start) as usize;
 
             // Calculate expected decompressed size for this sector
-            let remaining = file_info.file_size as usize - decompressed_data.len();
+            let remaining = (file_info.file_size as usize).saturating_sub(decompressed_data.len());
             let expected_size = remaining.min(sector_size);
 
             // Read sector data - offsets are absolute from file position
@@ -1610,11 +1613,11 @@ impl Archive {
                 bet_pos - het_pos
             } else {
                 // Calculate from hash table position
-                self.header.get_hash_table_pos() - het_pos
+                self.size_up_to_hash_table(het_pos)?
             }
         } else {
             // Calculate from hash table position
-            self.header.get_hash_table_pos() - het_pos
+            self.size_up_to_hash_table(het_pos)?
         };
 
         log::debug!(
@@ -1626,13 +1629,21 @@ impl Archive {
         Ok(actual_size)
     }
 
+    /// Distance from a table to the hash table that follows it
+    fn size_up_to_hash_table(&self, table_pos: u64) -> Result<u64> {
+        self.header
+            .get_hash_table_pos()
+            .checked_sub(table_pos)
+            .ok_or_else(|| Error::invalid_format("Extended table lies behind the hash table"))
+    }
+
     /// Read BET table size from the table header for V3 archives
     fn read_bet_table_size(&mut self, bet_pos: u64) -> Result<u64> {
         // For compressed tables, calculate the actual size based on the next table position
         log::debug!("Determining BET table size from file structure");
 
         // Calculate the actual size based on what comes after BET table (usually hash table)
-        let actual_size = self.header.get_hash_table_pos() - bet_pos;
+        let actual_size = self.size_up_to_hash_table(bet_pos)?;
 
         log::debug!(
             "BET table position: 0x{:X}, calculated size: {} bytes",
@@ -1715,10 +1726,12 @@ impl Archive {
         let file_size = self.reader.get_ref().metadata()?.len();
 
         // Calculate expected archive end position
-        let archive_end = self.archive_offset + self.header.get_archive_size();
+        let archive_end = self
+            .archive_offset
+            .saturating_add(self.header.get_archive_size());
 
         // Check if there's enough space for a strong signature after the archive
-        if file_size < archive_end + STRONG_SIGNATURE_SIZE as u64 {
+        if file_size < archive_end.saturating_add(STRONG_SIGNATURE_SIZE as u64) {
             log::debug!("File too small for strong signature");
             return Ok(SignatureStatus::None);
         }
diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index 02c1d8e..a6d4cf9 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -71,9 +71,9 @@ impl SignatureInfo {
         Self {
             begin_mpq_data: archive_start,
             begin_exclude: signature_file_pos,
-            end_exclude: signature_file_pos + signature_file_size,
-            end_mpq_data: archive_start + archive_size,
-            end_of_file: archive_start + archive_size, // For weak signatures, no data after archive
+            end_exclude: signature_file_pos.saturating_add(signature_file_size),
+            end_mpq_data: archive_start.saturating_add(archive_size),
+            end_of_file: archive_start.saturating_add(archive_size), // For weak signatures, no data after archive
             signature: signature_data,
             signature_size,
             signature_types: 1, // SIGNATURE_TYPE_WEAK = 1
diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index c4dac24..0feb86f 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -183,6 +183,14 @@ impl MpqHeader {
             )));
         }
 
+        // Sector sizes have to be representable
+        if u32::from(block_size) > usize::BITS - 10 {
+            return Err(Error::invalid_format(format!(
+                "Invalid block size exponent: {}",
+                block_size
+            )));
+        }
+
         let mut header = MpqHeader {
             header_size,
             archive_size,
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index f765cd7..4c3a291 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -161,16 +161,25 @@ impl BetTable {
         let data_start = 12 + std::mem::size_of::<BetHeader>();
         let mut cursor = std::io::Cursor::new(&table_data[data_start..]);
 
+        // The table cannot describe more files, flags or hashes than it has room for
+        let available = (table_data.len() - data_start) as u64;
+        let file_table_size =
+            (header.file_count as u64 * header.table_entry_size as u64).div_ceil(8);
+        if (header.file_count > 0 && header.table_entry_size == 0)
+            || header.flag_count as u64 * 4 > available
+            || header.bet_hash_array_size as u64 > available
+            || file_table_size > available
+        {
+            return Err(Error::invalid_format("BET table data too small"));
+        }
+
         // Read file flags
         let mut file_flags = Vec::with_capacity(header.flag_count as usize);
         for _ in 0..header.flag_count {
             file_flags.push(cursor.read_u32_le()?);
         }
 
-        // Calculate sizes
-        let file_table_size =
-            (header.file_count as usize * header.table_entry_size as usize).div_ceil(8);
-        let mut file_table = vec![0u8; file_table_size];
+        let mut file_table = vec![0u8; file_table_size as usize];
         cursor.read_exact(&mut file_table)?;
 
         // Read BET hashes
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 7059bcf..d7c84ec 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -238,8 +238,10 @@ impl HetTable {
         };
 
         // Calculate hash table index
-        let hash_table_entries = self.header.hash_table_size * 8 / self.header.hash_entry_size;
-        let hash_index = (hash & (hash_table_entries as u64 - 1)) as usize;
+        let hash_table_entries = (self.header.hash_table_size as u64 * 8)
+            .checked_div(self.header.hash_entry_size as u64)
+            .filter(|&entries| entries > 0)?;
+        let hash_index = (hash & (hash_table_entries - 1)) as usize;
 
         // Read hash entry
         let hash_entry = self.read_hash_entry(hash_index)?;
@@ -250,7 +252,10 @@ impl HetTable {
         }
 
         // Extract file index from hash entry
-        let file_index = (hash_entry >> self.header.hash_entry_size) & index_mask;
+        let file_index = hash_entry
+            .checked_shr(self.header.hash_entry_size)
+            .unwrap_or(0)
+            & index_mask;
 
         // Verify file index is valid
         if file_index >= self.header.max_file_count as u64 {
-- 
2.43.0


From 595947dd5c2ee04f5da912a352a63c483d078048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:08 +0000
Subject: [PATCH 16/58] fix: do not let declared sizes or ADPCM parameters
 panic or abort the decoders

---
 mopaq/src/compression/algorithms/adpcm.rs   | 10 ++++++++--
 mopaq/src/compression/algorithms/huffman.rs |  2 +-
 mopaq/src/compression/algorithms/lzma.rs    |  4 ++--
 mopaq/src/compression/algorithms/sparse.rs  |  5 ++++-
 mopaq/src/compression/algorithms/zlib.rs    |  2 +-
 mopaq/src/compression/decompress.rs         |  8 ++++----
 6 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/mopaq/src/compression/algorithms/adpcm.rs b/mopaq/src/compression/algorithms/adpcm.rs
index b7e118a..752b289 100644
--- a/mopaq/src/compression/algorithms/adpcm.rs
+++ b/mopaq/src/compression/algorithms/adpcm.rs
@@ -214,12 +214,18 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
     let bit_shift = input[input_pos];
     input_pos += 1;
 
+    if bit_shift >= 32 {
+        return Err(Error::compression(format!(
+            "Invalid ADPCM bit shift: {}",
+            bit_shift
+        )));
+    }
+
     // Initialize state for each channel
     let mut predicted_samples = vec![0i16; channel_count];
     let mut step_indexes = vec![INITIAL_ADPCM_STEP_INDEX; channel_count];
 
-    // Allocate output buffer
-    let mut output = Vec::with_capacity(output_size);
+    let mut output = Vec::new();
 
     // Read initial samples for each channel
     for predicted_sample in predicted_samples.iter_mut().take(channel_count) {
diff --git a/mopaq/src/compression/algorithms/huffman.rs b/mopaq/src/compression/algorithms/huffman.rs
index 5b26581..87b83a2 100644
--- a/mopaq/src/compression/algorithms/huffman.rs
+++ b/mopaq/src/compression/algorithms/huffman.rs
@@ -375,7 +375,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     );
 
     let mut reader = BitReader::new(data);
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = Vec::new();
 
     // Get compression type from the first byte
     let compression_type = reader.get_8_bits()?;
diff --git a/mopaq/src/compression/algorithms/lzma.rs b/mopaq/src/compression/algorithms/lzma.rs
index 1537d3b..db4e02c 100644
--- a/mopaq/src/compression/algorithms/lzma.rs
+++ b/mopaq/src/compression/algorithms/lzma.rs
@@ -7,7 +7,7 @@ use std::io::{BufReader, Cursor};
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     let cursor = Cursor::new(data);
     let mut input = BufReader::new(cursor);
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = Vec::new();
 
     // Try LZMA format first
     match lzma_rs::lzma_decompress(&mut input, &mut output) {
@@ -25,7 +25,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
             // If LZMA fails, try XZ format
             let cursor = Cursor::new(data);
             let mut input = BufReader::new(cursor);
-            let mut output = Vec::with_capacity(expected_size);
+            let mut output = Vec::new();
 
             match lzma_rs::xz_decompress(&mut input, &mut output) {
                 Ok(()) => Ok(output),
diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index f4d4490..310da0e 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -5,7 +5,7 @@ use crate::{Error, Result};
 /// Decompress sparse/RLE compressed data
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     // Sparse compression is a simple RLE format
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = Vec::new();
     let mut pos = 0;
 
     while pos < data.len() && output.len() < expected_size {
@@ -37,6 +37,9 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
 
     // Pad with zeros if needed
     if output.len() < expected_size {
+        output
+            .try_reserve_exact(expected_size - output.len())
+            .map_err(|e| Error::compression(format!("Sparse decompression: {}", e)))?;
         output.resize(expected_size, 0);
     }
 
diff --git a/mopaq/src/compression/algorithms/zlib.rs b/mopaq/src/compression/algorithms/zlib.rs
index 19bd08c..6a49d9f 100644
--- a/mopaq/src/compression/algorithms/zlib.rs
+++ b/mopaq/src/compression/algorithms/zlib.rs
@@ -22,7 +22,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
 
     // ZlibDecoder can handle both zlib-wrapped and raw deflate data
     let mut decoder = ZlibDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
+    let mut decompressed = Vec::new();
 
     match decoder.read_to_end(&mut decompressed) {
         Ok(_) => {
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 492e006..695221f 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -104,20 +104,20 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     if has_huffman {
         log::debug!("Decompressing Huffman");
         // For Huffman, we don't know the intermediate size, so we estimate conservatively
-        let huffman_output_size = std::cmp::max(expected_size * 2, current_data.len() * 2);
+        let huffman_output_size = std::cmp::max(expected_size.saturating_mul(2), current_data.len() * 2);
         current_data = algorithms::huffman::decompress(&current_data, huffman_output_size)?;
     } else if has_zlib {
         log::debug!("Decompressing Zlib");
-        current_data = algorithms::zlib::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::zlib::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
         current_data = algorithms::bzip2::decompress_unsized(&current_data)?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
-        current_data = algorithms::sparse::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::sparse::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_implode {
         log::debug!("Decompressing Implode");
-        current_data = algorithms::implode::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::implode::decompress(&current_data, expected_size.saturating_mul(4))?;
     }
 
     // Step 2: Decompress PKWare if present
-- 
2.43.0


From b8b25e07251a56bb4d783e0d9204d3db9e4bbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:42 +0000
Subject: [PATCH 17/58] fix: checksum what ADPCM units decode to, so that they
 can be read back

---
 mopaq/src/builder.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index b1f5f62..b256f1b 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1,7 +1,7 @@
 //! Archive builder for creating MPQ archives
 
 use crate::{
-    compression::{compress, flags as compression_flags},
+    compression::{compress, decompress, flags as compression_flags},
     crypto::{encrypt_block, hash_string, hash_type, jenkins_hash},
     header::{FormatVersion, MpqHeaderV4Data},
     tables::{BetHeader, BlockEntry, BlockTable, HashEntry, HashTable, HetHeader, HiBlockTable},
@@ -951,6 +951,12 @@ impl ArchiveBuilder {
                 file_data.to_vec()
             };
 
+            let crc = if self.generate_crcs {
+                Some(content_checksum(file_data, &compressed_data)?)
+            } else {
+                None
+            };
+
             // Encrypt if needed
             let final_data = if *encrypt {
                 flags |= BlockEntry::FLAG_ENCRYPTED;
@@ -970,9 +976,7 @@ impl ArchiveBuilder {
             writer.write_all(&final_data)?;
 
             // Write CRC if enabled
-            if self.generate_crcs {
-                // MPQ uses ADLER32 for sector checksums
-                let crc = adler::adler32_slice(file_data);
+            if let Some(crc) = crc {
                 writer.write_u32_le(crc)?;
                 log::debug!(
                     "Generated CRC for single unit file {}: 0x{:08X}",
@@ -1021,13 +1025,6 @@ impl ArchiveBuilder {
 
                 *offset = (data_start + sector_data.len()) as u32;
 
-                // Calculate CRC for uncompressed sector if enabled
-                if self.generate_crcs {
-                    // MPQ uses ADLER32 for sector checksums
-                    let crc = adler::adler32_slice(sector_bytes);
-                    sector_crcs.push(crc);
-                }
-
                 // Compress sector if needed
                 let compressed_sector = if *compression != 0 && !sector_bytes.is_empty() {
                     // The compress function now handles the compression byte prefix
@@ -1044,6 +1041,11 @@ impl ArchiveBuilder {
                     sector_bytes.to_vec()
                 };
 
+                // Calculate CRC for uncompressed sector if enabled
+                if self.generate_crcs {
+                    sector_crcs.push(content_checksum(sector_bytes, &compressed_sector)?);
+                }
+
                 sector_data.extend_from_slice(&compressed_sector);
             }
 
@@ -1887,3 +1889,16 @@ impl Default for ArchiveBuilder {
         Self::new()
     }
 }
+
+/// Checksum of the contents a reader gets back from a stored unit
+///
+/// MPQ uses ADLER32 for sector checksums. ADPCM is lossy: its units do not decode to `data`.
+fn content_checksum(data: &[u8], stored: &[u8]) -> Result<u32> {
+    let lossy = compression_flags::ADPCM_MONO | compression_flags::ADPCM_STEREO;
+    if stored != data && stored[0] & lossy != 0 {
+        let decoded = decompress(&stored[1..], stored[0], data.len())?;
+        Ok(adler::adler32_slice(&decoded))
+    } else {
+        Ok(adler::adler32_slice(data))
+    }
+}
-- 
2.43.0


From 787d5e9ccdb741cdedca1564eae2b6a02d3401d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:21 +0000
Subject: [PATCH 18/58] fix: read the checksum of an empty single-unit file at
 its own position

---
 mopaq/src/archive.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index a2714aa..df75530 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1287,9 +1287,12 @@ impl Archive {
             // Validate CRC if present for single unit files
             if file_info.has_sector_crc() && file_info.is_single_unit() {
                 // For single unit files, there's one CRC after the data
-                let mut crc_bytes = [0u8; 4];
-                self.reader.read_exact(&mut crc_bytes)?;
-                let expected_crc = u32::from_le_bytes(crc_bytes);
+                let crc_bytes = read_bytes_at(
+                    &mut self.reader,
+                    file_info.file_pos.saturating_add(file_info.compressed_size),
+                    4,
+                )?;
+                let expected_crc = crc_bytes.as_slice().read_u32_le()?;
 
                 // CRC is calculated on the decompressed data
                 let data_to_check = if file_info.is_compressed() {
@@ -1402,7 +1405,7 @@ impl Archive {
                 // CRC table follows the offset table
                 let crc_data = read_bytes_at(
                     &mut self.reader,
-                    file_info.file_pos + offset_table_size as u64,
+                    file_info.file_pos.saturating_add(offset_table_size as u64),
                     expected_crc_table_size as u64,
                 )?;
 
-- 
2.43.0


From c40a959669d8797c418f7b0c76d29028c61bc839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 19/58] fix: count empty files in the archive's file count

---
 mopaq/src/archive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index df75530..32b4e14 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -642,11 +642,11 @@ impl Archive {
         let file_count = if let Some(bet) = &self.bet_table {
             bet.header.file_count as usize
         } else if let Some(block_table) = &self.block_table {
-            // Count non-empty entries in block table
+            // Count used entries in block table (a file may be empty)
             block_table
                 .entries()
                 .iter()
-                .filter(|entry| entry.file_size != 0)
+                .filter(|entry| entry.exists())
                 .count()
         } else {
             0
-- 
2.43.0


From 9cf3f3526c47fcf78db05a372d5eba08b95f75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:35 +0000
Subject: [PATCH 20/58] fix: read imploded files, which carry no compression
 method byte

Files flagged IMPLODE (0x100) are bare PKWare streams. The reader took the first
byte of the stream for a compression method and returned the rest undecoded.
---
 mopaq/src/archive.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 32b4e14..4f448aa 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1300,8 +1300,7 @@ impl Archive {
                     if data.is_empty() {
                         return Err(Error::compression("Empty compressed data"));
                     }
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
+                    let (compression_type, compressed_data) = file_info.compressed_unit(&data);
                     compression::decompress(
                         compressed_data,
                         compression_type,
@@ -1326,11 +1325,8 @@ impl Archive {
 
             // Decompress if needed
             if file_info.is_compressed() {
-                // All compressed files should have a compression type byte prefix
-                // This matches StormLib's behavior
                 if !data.is_empty() {
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
+                    let (compression_type, compressed_data) = file_info.compressed_unit(&data);
                     log::debug!(
                         "Decompressing file: type=0x{:02X}, compressed_size={}, expected_size={}",
                         compression_type,
@@ -1479,11 +1475,9 @@ impl Archive {
             // Decompress sector
             let decompressed_sector =
                 if file_info.is_compressed() && sector_size_compressed < expected_size {
-                    // All compressed sectors should have compression type byte prefix
-                    // This matches StormLib's behavior
                     if !sector_data.is_empty() {
-                        let compression_type = sector_data[0];
-                        let compressed_data = &sector_data[1..];
+                        let (compression_type, compressed_data) =
+                            file_info.compressed_unit(&sector_data);
                         compression::decompress(compressed_data, compression_type, expected_size)?
                     } else {
                         return Err(Error::compression("Empty compressed sector data"));
@@ -1869,6 +1863,19 @@ pub struct FileInfo {
 }
 
 impl FileInfo {
+    /// Split a non-empty compressed unit into its compression method and its stream: files
+    /// flagged COMPRESS carry a method byte, imploded files are bare PKWare streams
+    fn compressed_unit<'a>(&self, data: &'a [u8]) -> (u8, &'a [u8]) {
+        use crate::tables::BlockEntry;
+        if (self.flags & BlockEntry::FLAG_IMPLODE) != 0
+            && (self.flags & BlockEntry::FLAG_COMPRESS) == 0
+        {
+            (compression::flags::PKWARE, data)
+        } else {
+            (data[0], &data[1..])
+        }
+    }
+
     /// Check if the file is compressed
     pub fn is_compressed(&self) -> bool {
         use crate::tables::BlockEntry;
-- 
2.43.0


From 08c2b1c98b7d0c18e4caf04c9ed07beee5158624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:23 +0000
Subject: [PATCH 21/58] fix: refuse sparse data that does not decode to its
 declared size

A short stream was padded with zeros up to the declared size, so a few damaged
bytes read as other contents or filled gigabytes of memory.
---
 mopaq/src/compression/algorithms/sparse.rs | 25 ++++++++++++++--------
 mopaq/src/compression/decompress.rs        |  3 ++-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index 310da0e..8e2e2ba 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -4,11 +4,26 @@ use crate::{Error, Result};
 
 /// Decompress sparse/RLE compressed data
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
+    let output = decompress_unsized(data, expected_size)?;
+
+    if output.len() != expected_size {
+        return Err(Error::compression(format!(
+            "Sparse decompressed size mismatch: expected {}, got {}",
+            expected_size,
+            output.len()
+        )));
+    }
+
+    Ok(output)
+}
+
+/// Decompress a sparse/RLE stream of at most about `max_size` bytes (an intermediate stage)
+pub(crate) fn decompress_unsized(data: &[u8], max_size: usize) -> Result<Vec<u8>> {
     // Sparse compression is a simple RLE format
     let mut output = Vec::new();
     let mut pos = 0;
 
-    while pos < data.len() && output.len() < expected_size {
+    while pos < data.len() && output.len() < max_size {
         // Read control byte
         let control = data[pos];
         pos += 1;
@@ -35,14 +50,6 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
         }
     }
 
-    // Pad with zeros if needed
-    if output.len() < expected_size {
-        output
-            .try_reserve_exact(expected_size - output.len())
-            .map_err(|e| Error::compression(format!("Sparse decompression: {}", e)))?;
-        output.resize(expected_size, 0);
-    }
-
     Ok(output)
 }
 
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 695221f..2182a1f 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -114,7 +114,8 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
         current_data = algorithms::bzip2::decompress_unsized(&current_data)?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
-        current_data = algorithms::sparse::decompress(&current_data, expected_size.saturating_mul(4))?;
+        current_data = 
+            algorithms::sparse::decompress_unsized(&current_data, expected_size.saturating_mul(4))?;
     } else if has_implode {
         log::debug!("Decompressing Implode");
         current_data = algorithms::implode::decompress(&current_data, expected_size.saturating_mul(4))?;
-- 
2.43.0


From 4074f30553eb212d16eb22ead374b92c0f0d260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:19 +0000
Subject: [PATCH 22/58] fix: bound the output of Huffman decompression by its
 input

The declared size alone limited the output, so a few bytes could fill gigabytes.
---
 mopaq/src/compression/algorithms/huffman.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/huffman.rs b/mopaq/src/compression/algorithms/huffman.rs
index 87b83a2..a9df50b 100644
--- a/mopaq/src/compression/algorithms/huffman.rs
+++ b/mopaq/src/compression/algorithms/huffman.rs
@@ -385,8 +385,13 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     tree.is_cmp0 = compression_type == 0;
     tree.build_tree(compression_type)?;
 
-    // Decompress data
+    // Decompress data; every decoded value takes at least one bit of the input
+    let max_size = data.len().saturating_mul(8);
     loop {
+        if output.len() >= max_size {
+            return Err(Error::compression("Huffman data too short"));
+        }
+
         let decoded_value = tree.decode_one_byte(&mut reader)?;
 
         // Check for end of stream marker
-- 
2.43.0


From ed82658de13c4442a3accdfe23933caf382706b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:38 +0000
Subject: [PATCH 23/58] fix: report a strong signature in the archive
 information

---
 mopaq/src/archive.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 4f448aa..041f021 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -661,7 +661,7 @@ impl Archive {
 
         // Check for special files
         let has_listfile = self.find_file("(listfile)")?.is_some();
-        let has_signature = self.find_file("(signature)")?.is_some();
+        let has_signature_file = self.find_file("(signature)")?.is_some();
         let has_attributes = self.attributes.is_some() || self.find_file("(attributes)")?.is_some();
 
         // Determine encryption status
@@ -675,18 +675,16 @@ impl Archive {
             false
         };
 
-        // Verify signature if present
-        let signature_status = if has_signature {
-            match self.verify_signature() {
-                Ok(status) => status,
-                Err(e) => {
-                    log::warn!("Failed to verify signature: {}", e);
-                    SignatureStatus::WeakInvalid
-                }
+        // Verify the signature: weak ones lie in a file, strong ones follow the archive
+        let signature_status = match self.verify_signature() {
+            Ok(status) => status,
+            Err(e) if has_signature_file => {
+                log::warn!("Failed to verify signature: {}", e);
+                SignatureStatus::WeakInvalid
             }
-        } else {
-            SignatureStatus::None
+            Err(_) => SignatureStatus::None,
         };
+        let has_signature = has_signature_file || signature_status != SignatureStatus::None;
 
         // Build table info
         let hash_table_info = TableInfo {
-- 
2.43.0


From b1141a7576561a72a73ca13695f2496561981a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:07 +0000
Subject: [PATCH 24/58] fix: close an archive and its files in one step, so
 that no file opened meanwhile survives

---
 storm-ffi/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8f59f25..44a37ec 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -290,14 +290,17 @@ pub unsafe extern "C" fn SFileCreateArchive(
 #[no_mangle]
 pub extern "C" fn SFileCloseArchive(handle: HANDLE) -> bool {
     if let Some(handle_id) = handle_to_id(handle) {
+        // Close the archive, keeping others out until its files are gone too
+        let mut archives = ARCHIVES.lock().unwrap();
+        let closed = archives.remove(&handle_id).is_some();
+
         // Remove any open files from this archive
         FILES
             .lock()
             .unwrap()
             .retain(|_, file| file.archive_handle != handle_id);
 
-        // Close the archive
-        if ARCHIVES.lock().unwrap().remove(&handle_id).is_some() {
+        if closed {
             set_last_error(ERROR_SUCCESS);
             true
         } else {
-- 
2.43.0


From 30f67bed3660c93ad59d624d45f9c6f859b6b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:10 +0000
Subject: [PATCH 25/58] fix: do not hold the archive locked while calling the
 enumeration callback

---
 storm-ffi/src/lib.rs | 50 +++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 44a37ec..f48616b 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -834,40 +834,34 @@ pub unsafe extern "C" fn SFileEnumFiles(
         }
     };
 
-    // Get archive
-    let mut archives = ARCHIVES.lock().unwrap();
-    let Some(archive_handle) = archives.get_mut(&archive_id) else {
-        set_last_error(ERROR_INVALID_HANDLE);
-        return false;
+    // List files, releasing the archive before calling back, as the callback may use it
+    let entries = {
+        let mut archives = ARCHIVES.lock().unwrap();
+        let Some(archive_handle) = archives.get_mut(&archive_id) else {
+            set_last_error(ERROR_INVALID_HANDLE);
+            return false;
+        };
+        // No listfile is okay
+        archive_handle.archive.list().unwrap_or_default()
     };
 
-    // List files
-    match archive_handle.archive.list() {
-        Ok(entries) => {
-            for entry in entries {
-                // Simple pattern matching (just * for now)
-                if pattern == "*" || entry.name.contains(&pattern.replace("*", "")) {
-                    let c_name = match CString::new(entry.name.as_str()) {
-                        Ok(s) => s,
-                        Err(_) => continue,
-                    };
+    for entry in entries {
+        // Simple pattern matching (just * for now)
+        if pattern == "*" || entry.name.contains(&pattern.replace("*", "")) {
+            let c_name = match CString::new(entry.name.as_str()) {
+                Ok(s) => s,
+                Err(_) => continue,
+            };
 
-                    // Call the callback
-                    if !callback_fn(c_name.as_ptr(), user_data) {
-                        // Callback returned false, stop enumeration
-                        break;
-                    }
-                }
+            // Call the callback
+            if !callback_fn(c_name.as_ptr(), user_data) {
+                // Callback returned false, stop enumeration
+                break;
             }
-            set_last_error(ERROR_SUCCESS);
-            true
-        }
-        Err(_) => {
-            // No listfile, but that's okay
-            set_last_error(ERROR_SUCCESS);
-            true
         }
     }
+    set_last_error(ERROR_SUCCESS);
+    true
 }
 
 /// Set locale for file operations
-- 
2.43.0


From 33feb7d82003cd7e668a9c3c11a278b6c4a23bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:43 +0000
Subject: [PATCH 26/58] fix: compute file positions from signed 64-bit offsets
 and refuse negative ones

---
 storm-ffi/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index f48616b..36b53ab 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -528,23 +528,29 @@ pub unsafe extern "C" fn SFileSetFilePointer(
         return 0xFFFFFFFF;
     };
 
-    // Combine high and low parts into 64-bit offset
-    let mut offset = file_pos as i64;
-    if !file_pos_high.is_null() {
-        let high = *file_pos_high as i64;
-        offset |= high << 32;
-    }
+    // Combine high and low parts into 64-bit offset; without a high part the low one is signed
+    let offset = if file_pos_high.is_null() {
+        file_pos as i64
+    } else {
+        (*file_pos_high as i64) << 32 | file_pos as u32 as i64
+    };
 
     // Calculate new position
-    let new_pos = match move_method {
-        0 => offset as usize,                                   // FILE_BEGIN
-        1 => (file_handle.position as i64 + offset) as usize,   // FILE_CURRENT
-        2 => (file_handle.data.len() as i64 + offset) as usize, // FILE_END
+    let base = match move_method {
+        0 => 0,                             // FILE_BEGIN
+        1 => file_handle.position as i64,   // FILE_CURRENT
+        2 => file_handle.data.len() as i64, // FILE_END
         _ => {
             set_last_error(ERROR_INVALID_PARAMETER);
             return 0xFFFFFFFF;
         }
     };
+    let new_pos = base.saturating_add(offset);
+    if new_pos < 0 {
+        set_last_error(ERROR_INVALID_PARAMETER);
+        return 0xFFFFFFFF;
+    }
+    let new_pos = new_pos as usize;
 
     // Clamp to file size
     file_handle.position = new_pos.min(file_handle.data.len());
-- 
2.43.0


From f3d2b87bd03399596901b62b65f4a370303c0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:46 +0000
Subject: [PATCH 27/58] fix: set the last error in SFileHasFile like in every
 other call

---
 storm-ffi/src/lib.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 36b53ab..656dab7 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -573,23 +573,41 @@ pub unsafe extern "C" fn SFileSetFilePointer(
 #[no_mangle]
 pub unsafe extern "C" fn SFileHasFile(archive: HANDLE, filename: *const c_char) -> bool {
     if filename.is_null() {
+        set_last_error(ERROR_INVALID_PARAMETER);
         return false;
     }
 
     let Some(archive_id) = handle_to_id(archive) else {
+        set_last_error(ERROR_INVALID_HANDLE);
         return false;
     };
 
     let filename_str = match CStr::from_ptr(filename).to_str() {
         Ok(s) => s,
-        Err(_) => return false,
+        Err(_) => {
+            set_last_error(ERROR_INVALID_PARAMETER);
+            return false;
+        }
     };
 
     let archives = ARCHIVES.lock().unwrap();
-    if let Some(archive_handle) = archives.get(&archive_id) {
-        matches!(archive_handle.archive.find_file(filename_str), Ok(Some(_)))
-    } else {
-        false
+    let Some(archive_handle) = archives.get(&archive_id) else {
+        set_last_error(ERROR_INVALID_HANDLE);
+        return false;
+    };
+    match archive_handle.archive.find_file(filename_str) {
+        Ok(Some(_)) => {
+            set_last_error(ERROR_SUCCESS);
+            true
+        }
+        Ok(None) => {
+            set_last_error(ERROR_FILE_NOT_FOUND);
+            false
+        }
+        Err(_) => {
+            set_last_error(ERROR_FILE_CORRUPT);
+            false
+        }
     }
 }
 
-- 
2.43.0


From c16acecf6054122f5cabd74b2396795261f7d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:50 +0000
Subject: [PATCH 28/58] fix: verify all files of an archive without locking it
 twice

---
 storm-ffi/src/lib.rs | 86 +++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 656dab7..3f99080 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1080,16 +1080,28 @@ pub unsafe extern "C" fn SFileVerifyFile(
         return false;
     };
 
+    match verify_file(&mut archive_handle.archive, filename_str, flags) {
+        Ok(()) => {
+            set_last_error(ERROR_SUCCESS);
+            true
+        }
+        Err(error_code) => {
+            set_last_error(error_code);
+            false
+        }
+    }
+}
+
+// Helper function for verification: the error code if a file is missing or damaged
+fn verify_file(archive: &mut Archive, filename_str: &str, flags: u32) -> Result<(), u32> {
     // Find the file first to get file info
-    let file_info = match archive_handle.archive.find_file(filename_str) {
+    let file_info = match archive.find_file(filename_str) {
         Ok(Some(info)) => info,
         Ok(None) => {
-            set_last_error(ERROR_FILE_NOT_FOUND);
-            return false;
+            return Err(ERROR_FILE_NOT_FOUND);
         }
         Err(_) => {
-            set_last_error(ERROR_FILE_CORRUPT);
-            return false;
+            return Err(ERROR_FILE_CORRUPT);
         }
     };
 
@@ -1099,17 +1111,15 @@ pub unsafe extern "C" fn SFileVerifyFile(
     // Verify sector CRC (if requested and available)
     if (verify_flags & SFILE_VERIFY_SECTOR_CRC) != 0 && file_info.has_sector_crc() {
         // Reading the file automatically validates sector CRCs
-        match archive_handle.archive.read_file(filename_str) {
+        match archive.read_file(filename_str) {
             Ok(_) => {
                 // File read successfully, CRCs validated automatically
             }
             Err(mopaq::Error::ChecksumMismatch { .. }) => {
-                set_last_error(ERROR_FILE_CORRUPT);
-                return false;
+                return Err(ERROR_FILE_CORRUPT);
             }
             Err(_) => {
-                set_last_error(ERROR_FILE_CORRUPT);
-                return false;
+                return Err(ERROR_FILE_CORRUPT);
             }
         }
     }
@@ -1117,25 +1127,20 @@ pub unsafe extern "C" fn SFileVerifyFile(
     // Verify file CRC32 from attributes (if requested and available)
     if (verify_flags & SFILE_VERIFY_FILE_CRC) != 0 {
         // Load attributes if not already loaded
-        let _ = archive_handle.archive.load_attributes();
+        let _ = archive.load_attributes();
 
-        if let Some(attrs) = archive_handle
-            .archive
-            .get_file_attributes(file_info.block_index)
-        {
+        if let Some(attrs) = archive.get_file_attributes(file_info.block_index) {
             if let Some(expected_crc) = attrs.crc32 {
                 // Read file data to calculate CRC
-                match archive_handle.archive.read_file(filename_str) {
+                match archive.read_file(filename_str) {
                     Ok(data) => {
                         let actual_crc = crc32fast::hash(&data);
                         if actual_crc != expected_crc {
-                            set_last_error(ERROR_FILE_CORRUPT);
-                            return false;
+                            return Err(ERROR_FILE_CORRUPT);
                         }
                     }
                     Err(_) => {
-                        set_last_error(ERROR_FILE_CORRUPT);
-                        return false;
+                        return Err(ERROR_FILE_CORRUPT);
                     }
                 }
             }
@@ -1145,36 +1150,30 @@ pub unsafe extern "C" fn SFileVerifyFile(
     // Verify file MD5 from attributes (if requested and available)
     if (verify_flags & SFILE_VERIFY_FILE_MD5) != 0 {
         // Load attributes if not already loaded
-        let _ = archive_handle.archive.load_attributes();
+        let _ = archive.load_attributes();
 
-        if let Some(attrs) = archive_handle
-            .archive
-            .get_file_attributes(file_info.block_index)
-        {
+        if let Some(attrs) = archive.get_file_attributes(file_info.block_index) {
             if let Some(expected_md5) = attrs.md5 {
                 // Read file data to calculate MD5
-                match archive_handle.archive.read_file(filename_str) {
+                match archive.read_file(filename_str) {
                     Ok(data) => {
                         use md5::{Digest, Md5};
                         let mut hasher = Md5::new();
                         hasher.update(&data);
                         let actual_md5: [u8; 16] = hasher.finalize().into();
                         if actual_md5 != expected_md5 {
-                            set_last_error(ERROR_FILE_CORRUPT);
-                            return false;
+                            return Err(ERROR_FILE_CORRUPT);
                         }
                     }
                     Err(_) => {
-                        set_last_error(ERROR_FILE_CORRUPT);
-                        return false;
+                        return Err(ERROR_FILE_CORRUPT);
                     }
                 }
             }
         }
     }
 
-    set_last_error(ERROR_SUCCESS);
-    true
+    Ok(())
 }
 
 /// Verify archive integrity
@@ -1269,20 +1268,15 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
             let all_verify_flags =
                 file_verify_flags | SFILE_VERIFY_FILE_CRC | SFILE_VERIFY_FILE_MD5;
 
-            // Use our own SFileVerifyFile function for consistency
-            unsafe {
-                let filename_cstr = match std::ffi::CString::new(file_entry.name.as_str()) {
-                    Ok(s) => s,
-                    Err(_) => continue, // Skip files with invalid names
-                };
-
-                if !SFileVerifyFile(archive, filename_cstr.as_ptr(), all_verify_flags) {
-                    let last_error = SFileGetLastError();
-                    // Only fail on corruption, not missing attributes
-                    if last_error == ERROR_FILE_CORRUPT {
-                        return false;
-                    }
-                }
+            // Only fail on corruption, not missing attributes
+            let result = verify_file(
+                &mut archive_handle.archive,
+                &file_entry.name,
+                all_verify_flags,
+            );
+            if result == Err(ERROR_FILE_CORRUPT) {
+                set_last_error(ERROR_FILE_CORRUPT);
+                return false;
             }
         }
     }
-- 
2.43.0


From b5e659e29df247ba7af2b67617804d0a4276c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:51 +0000
Subject: [PATCH 29/58] fix: report a missing archive as not found instead of
 access denied

---
 storm-ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 3f99080..f426451 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -174,6 +174,9 @@ pub unsafe extern "C" fn SFileOpenArchive(
             // Map mopaq errors to Windows error codes
             let error_code = match e {
                 mopaq::Error::FileNotFound(_) => ERROR_FILE_NOT_FOUND,
+                mopaq::Error::Io(ref io) if io.kind() == std::io::ErrorKind::NotFound => {
+                    ERROR_FILE_NOT_FOUND
+                }
                 mopaq::Error::InvalidFormat(_) => ERROR_FILE_CORRUPT,
                 mopaq::Error::Io(_) => ERROR_ACCESS_DENIED,
                 _ => ERROR_FILE_CORRUPT,
-- 
2.43.0


From 5301bcd9513933752cfbe2499c54be9b3fbfd17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:19 +0000
Subject: [PATCH 30/58] fix: keep extracted files inside the target directory

Names stored in an archive may contain "..", start at the root or use
backslashes; joined to the target directory as they are, they wrote outside
of it, or panicked where there is no file name.
---
 storm-cli/src/commands/file.rs | 37 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index dee6577..f6b42fd 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -71,6 +71,29 @@ pub fn list(
     Ok(())
 }
 
+/// Convert a name stored in an archive to a path below the extraction directory
+///
+/// Both separators found in archives are understood. Names that would leave the
+/// directory, or that do not name a file at all, are refused.
+fn extraction_path(name: &str, preserve_path: bool) -> Result<PathBuf> {
+    let mut path = PathBuf::new();
+    for part in name.split(['/', '\\']) {
+        match part {
+            "" | "." => continue,
+            ".." => anyhow::bail!("Unsafe path in archive: {}", name),
+            _ if Path::new(part).file_name() != Some(part.as_ref()) => {
+                anyhow::bail!("Unsafe path in archive: {}", name)
+            }
+            _ if preserve_path => path.push(part),
+            _ => path = PathBuf::from(part),
+        }
+    }
+    if path.as_os_str().is_empty() {
+        anyhow::bail!("Not a file name: {}", name);
+    }
+    Ok(path)
+}
+
 /// Extract files from an archive
 pub fn extract(
     archive_path: &str,
@@ -90,10 +113,8 @@ pub fn extract(
 
         let output_path = if let Some(out) = output {
             PathBuf::from(out)
-        } else if preserve_path {
-            PathBuf::from(filename)
         } else {
-            PathBuf::from(Path::new(filename).file_name().unwrap())
+            extraction_path(filename, preserve_path)?
         };
 
         // Create parent directories if needed
@@ -121,10 +142,12 @@ pub fn extract(
                 }
             };
 
-            let output_path = if preserve_path {
-                PathBuf::from(output_dir).join(filename)
-            } else {
-                PathBuf::from(output_dir).join(Path::new(filename).file_name().unwrap())
+            let output_path = match extraction_path(filename, preserve_path) {
+                Ok(path) => PathBuf::from(output_dir).join(path),
+                Err(e) => {
+                    eprintln!("Failed to extract {}: {}", filename, e);
+                    continue;
+                }
             };
 
             // Create parent directories if needed
-- 
2.43.0


From c6610341d019a01587f100563155e0fb605fae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:43 +0000
Subject: [PATCH 31/58] fix: report failure when not every file could be
 extracted

---
 storm-cli/src/commands/file.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index f6b42fd..3547d47 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -132,12 +132,14 @@ pub fn extract(
         let output_dir = output.unwrap_or(".");
         let file_entries = archive.list()?;
         let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
+        let mut failed = 0usize;
 
         for filename in &files {
             let data = match archive.read_file(filename) {
                 Ok(data) => data,
                 Err(e) => {
                     eprintln!("Failed to extract {}: {}", filename, e);
+                    failed += 1;
                     continue;
                 }
             };
@@ -146,6 +148,7 @@ pub fn extract(
                 Ok(path) => PathBuf::from(output_dir).join(path),
                 Err(e) => {
                     eprintln!("Failed to extract {}: {}", filename, e);
+                    failed += 1;
                     continue;
                 }
             };
@@ -163,7 +166,15 @@ pub fn extract(
         }
 
         if !global_opts.quiet {
-            println!("{} Extracted {} files", "✓".green(), files.len());
+            println!(
+                "{} Extracted {} files",
+                "✓".green(),
+                files.len() - failed
+            );
+        }
+
+        if failed > 0 {
+            anyhow::bail!("Failed to extract {} of {} files", failed, files.len());
         }
     }
 
-- 
2.43.0


From 2f9491450438bfc6bbbcf2cd69a8c28adb98870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:46 +0000
Subject: [PATCH 32/58] fix: shorten long names between characters in the
 verbose listing

---
 storm-cli/src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storm-cli/src/output.rs b/storm-cli/src/output.rs
index e2bb87c..091f1ca 100644
--- a/storm-cli/src/output.rs
+++ b/storm-cli/src/output.rs
@@ -451,8 +451,8 @@ pub fn print_file_list_verbose(files: &[FileEntry]) -> Result<(), io::Error> {
         };
 
         // Truncate long filenames
-        let display_name = if entry.name.len() > 39 {
-            format!("{}...", &entry.name[..36])
+        let display_name = if entry.name.chars().count() > 39 {
+            format!("{}...", entry.name.chars().take(36).collect::<String>())
         } else {
             entry.name.clone()
         };
-- 
2.43.0


From 7568f5749ec9b10ea1299c2bc2b4acc2ca238ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:50 +0000
Subject: [PATCH 33/58] fix: quote names in CSV output

---
 storm-cli/src/output.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/storm-cli/src/output.rs b/storm-cli/src/output.rs
index 091f1ca..da4b5a4 100644
--- a/storm-cli/src/output.rs
+++ b/storm-cli/src/output.rs
@@ -11,6 +11,15 @@ pub fn print_json<T: Serialize>(data: &T) -> Result<(), io::Error> {
     Ok(())
 }
 
+/// Quote a CSV field where it needs to be quoted
+fn csv_field(value: &str) -> String {
+    if value.contains([',', '"', '\n', '\r']) {
+        format!("\"{}\"", value.replace('"', "\"\""))
+    } else {
+        value.to_string()
+    }
+}
+
 /// Print archive information
 pub fn print_archive_info(archive: &mut Archive, format: OutputFormat) -> Result<(), io::Error> {
     let info = archive.get_info().map_err(|e| {
@@ -281,7 +290,7 @@ fn print_archive_info_json(info: &ArchiveInfo) -> Result<(), io::Error> {
 
 fn print_archive_info_csv(info: &ArchiveInfo) -> Result<(), io::Error> {
     println!("property,value");
-    println!("path,{}", info.path.display());
+    println!("path,{}", csv_field(&info.path.display().to_string()));
     println!("file_size,{}", info.file_size);
     println!("archive_offset,{}", info.archive_offset);
     println!("format_version,{}", info.format_version as u16 + 1);
@@ -336,15 +345,15 @@ pub fn print_file_list_with_hashes(
                 println!("filename,hash1,hash2");
                 for entry in files {
                     if let Some((hash1, hash2)) = entry.hashes {
-                        println!("{},{:08X},{:08X}", entry.name, hash1, hash2);
+                        println!("{},{:08X},{:08X}", csv_field(&entry.name), hash1, hash2);
                     } else {
-                        println!("{},NA,NA", entry.name);
+                        println!("{},NA,NA", csv_field(&entry.name));
                     }
                 }
             } else {
                 println!("filename");
                 for entry in files {
-                    println!("{}", entry.name);
+                    println!("{}", csv_field(&entry.name));
                 }
             }
         }
@@ -367,7 +376,7 @@ pub fn print_file_list(files: &[String], format: OutputFormat) -> Result<(), io:
         OutputFormat::Csv => {
             println!("filename");
             for file in files {
-                println!("{}", file);
+                println!("{}", csv_field(file));
             }
         }
     }
@@ -567,7 +576,7 @@ pub fn print_file_info(filename: &str, size: u64, format: OutputFormat) -> Resul
         }
         OutputFormat::Csv => {
             println!("filename,size");
-            println!("{},{}", filename, size);
+            println!("{},{}", csv_field(filename), size);
         }
     }
     Ok(())
-- 
2.43.0


From 0d2252871fc05a7f9b7dadd2e829b0eba4bdb283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:54 +0000
Subject: [PATCH 34/58] fix: escape the file name in the JSON output of hash
 generate

---
 storm-cli/src/commands/hash.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/storm-cli/src/commands/hash.rs b/storm-cli/src/commands/hash.rs
index 2beef7e..3c55a1a 100644
--- a/storm-cli/src/commands/hash.rs
+++ b/storm-cli/src/commands/hash.rs
@@ -47,8 +47,10 @@ pub fn generate(filename: &str, hash_type: Option<HashType>, all: bool) -> Resul
 
         if global_opts.output == crate::OutputFormat::Json {
             println!(
-                r#"{{"filename":"{}","type":"{:?}","value":"0x{:08x}"}}"#,
-                filename, ht, value
+                r#"{{"filename":{},"type":"{:?}","value":"0x{:08x}"}}"#,
+                serde_json::to_string(filename)?,
+                ht,
+                value
             );
         } else {
             println!("{:#010x}", value);
-- 
2.43.0


From 98eca11cfad059cf0a1ec8141821b509407fee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:58 +0000
Subject: [PATCH 35/58] fix: do not panic on source files whose path is not
 UTF-8

---
 storm-cli/src/commands/archive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index ce1c57f..6e00a7e 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -135,7 +135,7 @@ fn add_directory_to_archive(
         // Normalize path separators
         let archive_path = archive_path.replace('\\', "/");
 
-        builder = builder.add_file(path.to_str().unwrap(), &archive_path);
+        builder = builder.add_file(path, &archive_path);
 
         if !quiet {
             println!("Added: {}", archive_path);
-- 
2.43.0


From 75e3cb0c6be70fbca1a617b9443032ec868f698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:56 +0000
Subject: [PATCH 36/58] fix: fail archive verify on damaged tables, header and
 signature

The report showed them in red and then declared the verification passed.
---
 storm-cli/src/commands/archive.rs | 42 +++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 6e00a7e..bfd8cb3 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -218,6 +218,48 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
     verification_results.header_checks.signature_status =
         Some(archive_info.signature_status.clone());
 
+    // Damage found above fails the verification just like damaged files do
+    let table_checks = &verification_results.table_checks;
+    let mut archive_checks = vec![
+        ("Hash table", table_checks.hash_table_loaded, "Failed to load"),
+        ("Block table", table_checks.block_table_loaded, "Failed to load"),
+        (
+            "HET table",
+            table_checks.het_table_loaded.unwrap_or(true),
+            "Failed to load",
+        ),
+        (
+            "BET table",
+            table_checks.bet_table_loaded.unwrap_or(true),
+            "Failed to load",
+        ),
+        (
+            "Digital signature",
+            !matches!(
+                archive_info.signature_status,
+                SignatureStatus::WeakInvalid | SignatureStatus::StrongInvalid
+            ),
+            "Invalid signature",
+        ),
+    ];
+    if let Some(md5) = &table_checks.md5_checksums {
+        archive_checks.extend([
+            ("Header", md5.header_valid, "MD5 mismatch"),
+            ("Hash table", md5.hash_table_valid, "MD5 mismatch"),
+            ("Block table", md5.block_table_valid, "MD5 mismatch"),
+            ("Hi-block table", md5.hi_block_table_valid, "MD5 mismatch"),
+            ("HET table", md5.het_table_valid, "MD5 mismatch"),
+            ("BET table", md5.bet_table_valid, "MD5 mismatch"),
+        ]);
+    }
+    for (part, passed, error) in archive_checks {
+        if !passed {
+            verification_results
+                .errors
+                .push((part.to_string(), error.to_string()));
+        }
+    }
+
     // Verify individual files
     let file_entries = archive.list()?;
     let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
-- 
2.43.0


From e88daa7e8292f7107089809f580f7743ccd6bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:02 +0000
Subject: [PATCH 37/58] fix: undo every compression stage a multi-compressed
 unit is labelled with

A unit written with Sparse and then zlib or bzip2 was only run through the
outer codec: for zlib the sparse stream was returned as the contents. Combinations
that cannot be undone are refused instead of skipping a stage.
---
 mopaq/src/compression/decompress.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 2182a1f..cb867e2 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -98,6 +98,20 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     // 2. Then decompress PKWare if present
     // 3. Finally decompress ADPCM if present (ADPCM is applied first during compression)
 
+    // Never skip a stage the data is labelled with: apart from Sparse below one general purpose
+    // method, only one of these can be undone
+    let general_count = [has_huffman, has_zlib, has_bzip2, has_implode]
+        .iter()
+        .filter(|&&x| x)
+        .count();
+    let sparse_inside = has_sparse && general_count > 0;
+    if general_count > 1 || (sparse_inside && (has_adpcm || has_pkware)) {
+        return Err(Error::compression(format!(
+            "Unsupported combination of compression methods: 0x{:02X}",
+            flags
+        )));
+    }
+
     let mut current_data = data.to_vec();
 
     // Step 1: Decompress the primary compression method
@@ -129,6 +143,12 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
         current_data = algorithms::pkware::decompress(&current_data, pkware_output_size)?;
     }
 
+    // Sparse is applied before the general purpose compression, so it is undone after it
+    if sparse_inside {
+        log::debug!("Decompressing Sparse");
+        return algorithms::sparse::decompress(&current_data, expected_size);
+    }
+
     // Step 3: Decompress ADPCM if present (applied last since it was first during compression)
     if let Some(adpcm_type) = adpcm_type {
         log::debug!("Decompressing ADPCM {}", adpcm_type);
-- 
2.43.0


From 3e913e423dea5e7ceb2bd0cefd7fc673a5852498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:54 +0000
Subject: [PATCH 38/58] fix: table commands that are not implemented report
 failure

---
 storm-cli/src/commands/table.rs | 57 +++++++--------------------------
 1 file changed, 11 insertions(+), 46 deletions(-)

diff --git a/storm-cli/src/commands/table.rs b/storm-cli/src/commands/table.rs
index 0e6a781..b69cd9b 100644
--- a/storm-cli/src/commands/table.rs
+++ b/storm-cli/src/commands/table.rs
@@ -1,11 +1,9 @@
 //! Table analysis and display operations
 
 use anyhow::Result;
-use colored::Colorize;
 use mopaq::Archive;
 
 use crate::TableType;
-use crate::GLOBAL_OPTS;
 
 /// Display table contents
 pub fn show(
@@ -14,58 +12,25 @@ pub fn show(
     _limit: Option<usize>,
     _occupied_only: bool,
 ) -> Result<()> {
-    let global_opts = GLOBAL_OPTS.get().expect("Global options not set");
-
     let _archive = Archive::open(archive_path)?;
     let table = table_type.unwrap_or(TableType::Hash);
 
     match table {
-        TableType::Hash => {
-            // TODO: Access hash table data
-            if !global_opts.quiet {
-                println!("Hash table display not yet implemented");
-            }
-        }
-        TableType::Block => {
-            // TODO: Access block table data
-            if !global_opts.quiet {
-                println!("Block table display not yet implemented");
-            }
-        }
-        TableType::Het => {
-            // TODO: Access HET table data
-            if !global_opts.quiet {
-                println!("HET table display not yet implemented");
-            }
-        }
-        TableType::Bet => {
-            // TODO: Access BET table data
-            if !global_opts.quiet {
-                println!("BET table display not yet implemented");
-            }
-        }
+        // TODO: Access hash table data
+        TableType::Hash => anyhow::bail!("Hash table display not yet implemented"),
+        // TODO: Access block table data
+        TableType::Block => anyhow::bail!("Block table display not yet implemented"),
+        // TODO: Access HET table data
+        TableType::Het => anyhow::bail!("HET table display not yet implemented"),
+        // TODO: Access BET table data
+        TableType::Bet => anyhow::bail!("BET table display not yet implemented"),
     }
-
-    Ok(())
 }
 
 /// Analyze table structure and efficiency
-pub fn analyze(archive_path: &str, detailed: bool) -> Result<()> {
-    let global_opts = GLOBAL_OPTS.get().expect("Global options not set");
-
+pub fn analyze(archive_path: &str, _detailed: bool) -> Result<()> {
     let _archive = Archive::open(archive_path)?;
 
-    if !global_opts.quiet {
-        println!("{}", "Archive Table Analysis".bold());
-        println!("{}", "=".repeat(50));
-
-        // TODO: Implement actual table analysis
-        println!("\nTable analysis not yet implemented");
-
-        if detailed {
-            println!("\nDetailed statistics would be shown here");
-        }
-    }
-
-    Ok(())
+    // TODO: Implement actual table analysis
+    anyhow::bail!("Table analysis not yet implemented");
 }
-- 
2.43.0


From 70ce9a18e334be94b4dcaaa090222a2ee7c7afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:59 +0000
Subject: [PATCH 39/58] fix: hash jenkins prints the hash instead of claiming
 success without one

---
 storm-cli/src/commands/hash.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/storm-cli/src/commands/hash.rs b/storm-cli/src/commands/hash.rs
index 3c55a1a..e3e72c4 100644
--- a/storm-cli/src/commands/hash.rs
+++ b/storm-cli/src/commands/hash.rs
@@ -2,7 +2,7 @@
 
 use anyhow::Result;
 use colored::Colorize;
-use mopaq::crypto::{hash_string, hash_type};
+use mopaq::crypto::{hash_string, hash_type, jenkins_hash};
 
 use crate::HashType;
 use crate::GLOBAL_OPTS;
@@ -104,14 +104,8 @@ pub fn compare(filename1: &str, filename2: &str) -> Result<()> {
 }
 
 /// Generate Jenkins hash (for HET tables)
-pub fn jenkins(_filename: &str) -> Result<()> {
-    let global_opts = GLOBAL_OPTS.get().expect("Global options not set");
-
-    // TODO: Implement Jenkins hash when HET support is added
-    if !global_opts.quiet {
-        println!("Jenkins hash generation not yet implemented");
-        println!("This will be available when HET table support is added");
-    }
+pub fn jenkins(filename: &str) -> Result<()> {
+    println!("Jenkins hash: {:#018x}", jenkins_hash(filename));
 
     Ok(())
 }
-- 
2.43.0


From ed6b592a028d38224a7ae229dc9958dd9bd93651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:03 +0000
Subject: [PATCH 40/58] fix: file find honours the JSON and CSV output formats

---
 storm-cli/src/commands/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index 3547d47..1fcabce 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -234,7 +234,9 @@ pub fn find(archive_path: &str, pattern: &str, regex: bool, ignore_case: bool) -
             .collect()
     };
 
-    if matches.is_empty() {
+    if global_opts.output != crate::OutputFormat::Text {
+        print_file_list(&matches, global_opts.output)?;
+    } else if matches.is_empty() {
         if !global_opts.quiet {
             println!("No files found matching pattern: {}", pattern);
         }
-- 
2.43.0


From 1febe28de1f878908fa7192c6fd324d57fcb1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:08 +0000
Subject: [PATCH 41/58] fix: quote the archive path in CSV verification reports

---
 storm-cli/src/commands/archive.rs | 4 ++--
 storm-cli/src/output.rs           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index bfd8cb3..7da3571 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -9,7 +9,7 @@ use std::collections::HashMap;
 use std::path::Path;
 use walkdir::WalkDir;
 
-use crate::output::{print_archive_info, print_json};
+use crate::output::{csv_field, print_archive_info, print_json};
 use crate::{OutputFormat, GLOBAL_OPTS};
 
 #[derive(Debug, Clone)]
@@ -640,7 +640,7 @@ fn print_detailed_verify_result(
         }
         OutputFormat::Csv => {
             println!("metric,value");
-            println!("archive,{}", results.archive_path);
+            println!("archive,{}", csv_field(&results.archive_path));
             println!("format_version,{}", results.format_version as u16 + 1);
             println!("total_files,{}", results.total_files);
             println!("verified_files,{}", results.verified_files);
diff --git a/storm-cli/src/output.rs b/storm-cli/src/output.rs
index da4b5a4..d5fe85a 100644
--- a/storm-cli/src/output.rs
+++ b/storm-cli/src/output.rs
@@ -12,7 +12,7 @@ pub fn print_json<T: Serialize>(data: &T) -> Result<(), io::Error> {
 }
 
 /// Quote a CSV field where it needs to be quoted
-fn csv_field(value: &str) -> String {
+pub fn csv_field(value: &str) -> String {
     if value.contains([',', '"', '\n', '\r']) {
         format!("\"{}\"", value.replace('"', "\"\""))
     } else {
-- 
2.43.0


From 80dc732b6af50482f1905a4d701e5c18c73aad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:19 +0000
Subject: [PATCH 42/58] fix: do not skip a header candidate when reading it
 fails

---
 mopaq/src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index 0feb86f..72535de 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -301,10 +301,11 @@ pub fn find_header<R: Read + Seek>(
         // Try to read a signature
         let signature = match reader.read_u32_le() {
             Ok(sig) => sig,
-            Err(_) => {
+            Err(Error::Io(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => {
                 offset += HEADER_ALIGNMENT;
                 continue;
             }
+            Err(e) => return Err(e),
         };
 
         match signature {
-- 
2.43.0


From a9ec86f1a904a5e7a77434078f7eac3f3eb733fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:25 +0000
Subject: [PATCH 43/58] fix: an interrupted read does not make a signature
 invalid

---
 mopaq/src/crypto/signature.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index a6d4cf9..e89fc93 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -173,6 +173,16 @@ pub fn parse_strong_signature(data: &[u8]) -> Result<Vec<u8>> {
     Ok(signature)
 }
 
+/// Read what is available, retrying when the read is interrupted
+fn read_some<R: Read>(reader: &mut R, buffer: &mut [u8]) -> std::io::Result<usize> {
+    loop {
+        match reader.read(buffer) {
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result,
+        }
+    }
+}
+
 /// Calculate MD5 hash for weak signature verification (matches StormLib's CalculateMpqHashMd5)
 /// This implementation exactly matches StormLib's chunk-based approach:
 /// - Uses exactly 64KB chunks (DIGEST_UNIT_SIZE = 0x10000)
@@ -201,7 +211,7 @@ pub fn calculate_mpq_hash_md5<R: Read + std::io::Seek>(
 
         // Seek to current position and read chunk
         reader.seek(std::io::SeekFrom::Start(current_pos))?;
-        let bytes_read = reader.read(&mut buffer[..to_read])?;
+        let bytes_read = read_some(&mut reader, &mut buffer[..to_read])?;
         if bytes_read == 0 {
             break; // EOF reached
         }
@@ -296,7 +306,7 @@ pub fn verify_weak_signature<R: Read>(
     // Read up to archive_size (which should exclude the signature)
     while bytes_read < archive_size {
         let to_read = ((archive_size - bytes_read) as usize).min(buffer.len());
-        let n = reader.read(&mut buffer[..to_read])?;
+        let n = read_some(&mut reader, &mut buffer[..to_read])?;
         if n == 0 {
             break;
         }
@@ -339,7 +349,7 @@ pub fn verify_strong_signature<R: Read>(
     // Read up to archive_size (which should exclude the signature)
     while bytes_read < archive_size {
         let to_read = ((archive_size - bytes_read) as usize).min(buffer.len());
-        let n = reader.read(&mut buffer[..to_read])?;
+        let n = read_some(&mut reader, &mut buffer[..to_read])?;
         if n == 0 {
             break;
         }
-- 
2.43.0


From 7ee1c178f08f96fea45aa4ed770a7bfd5a344193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:32 +0000
Subject: [PATCH 44/58] fix: a signature that cannot be read is not reported as
 absent

---
 mopaq/src/archive.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 041f021..5fa502e 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -682,7 +682,7 @@ impl Archive {
                 log::warn!("Failed to verify signature: {}", e);
                 SignatureStatus::WeakInvalid
             }
-            Err(_) => SignatureStatus::None,
+            Err(e) => return Err(e),
         };
         let has_signature = has_signature_file || signature_status != SignatureStatus::None;
 
@@ -1652,10 +1652,9 @@ impl Archive {
     /// Verify the digital signature of the archive
     pub fn verify_signature(&mut self) -> Result<SignatureStatus> {
         // First check for strong signature (external to archive)
-        if let Ok(strong_status) = self.verify_strong_signature() {
-            if strong_status != SignatureStatus::None {
-                return Ok(strong_status);
-            }
+        let strong_status = self.verify_strong_signature()?;
+        if strong_status != SignatureStatus::None {
+            return Ok(strong_status);
         }
 
         // Then check for weak signature (inside archive)
@@ -1776,7 +1775,7 @@ impl Archive {
             }
             Err(e) => {
                 log::debug!("Failed to read potential strong signature: {}", e);
-                Ok(SignatureStatus::None)
+                Err(e.into())
             }
         }
     }
-- 
2.43.0


From 225efbb3c256cf6ad727637ac7de77fb639127ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:56 +0000
Subject: [PATCH 45/58] fix: describing an open archive does not reopen its
 path

get_info() reopened the path of a version 3 archive to work out the sizes
of its HET and BET tables, although nothing is read for that. When the
file had been removed or moved in the meantime the sizes went missing.
---
 mopaq/src/archive.rs | 50 ++++----------------------------------------
 1 file changed, 4 insertions(+), 46 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 5fa502e..1d87f38 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -716,28 +716,7 @@ impl Archive {
             // For v3 without v4 data, try to determine the size
             if compressed_size.is_none() && self.header.format_version == header::FormatVersion::V3
             {
-                // Make a copy of the reader to avoid interfering with the main archive
-                if let Ok(temp_reader) =
-                    std::fs::File::open(&self.path).map(std::io::BufReader::new)
-                {
-                    let mut temp_archive = Self {
-                        path: self.path.clone(),
-                        reader: temp_reader,
-                        archive_offset: self.archive_offset,
-                        user_data: self.user_data.clone(),
-                        header: self.header.clone(),
-                        hash_table: None,
-                        block_table: None,
-                        hi_block_table: None,
-                        het_table: None,
-                        bet_table: None,
-                        attributes: None,
-                    };
-
-                    if let Ok(size) = temp_archive.read_het_table_size(pos) {
-                        compressed_size = Some(size);
-                    }
-                }
+                compressed_size = self.read_het_table_size(pos).ok();
             }
 
             Some(TableInfo {
@@ -759,28 +738,7 @@ impl Archive {
             // For v3 without v4 data, try to determine the size
             if compressed_size.is_none() && self.header.format_version == header::FormatVersion::V3
             {
-                // Make a copy of the reader to avoid interfering with the main archive
-                if let Ok(temp_reader) =
-                    std::fs::File::open(&self.path).map(std::io::BufReader::new)
-                {
-                    let mut temp_archive = Self {
-                        path: self.path.clone(),
-                        reader: temp_reader,
-                        archive_offset: self.archive_offset,
-                        user_data: self.user_data.clone(),
-                        header: self.header.clone(),
-                        hash_table: None,
-                        block_table: None,
-                        hi_block_table: None,
-                        het_table: None,
-                        bet_table: None,
-                        attributes: None,
-                    };
-
-                    if let Ok(size) = temp_archive.read_bet_table_size(pos) {
-                        compressed_size = Some(size);
-                    }
-                }
+                compressed_size = self.read_bet_table_size(pos).ok();
             }
 
             Some(TableInfo {
@@ -1597,7 +1555,7 @@ impl Archive {
     }
 
     /// Read HET table size from the table header for V3 archives
-    fn read_het_table_size(&mut self, het_pos: u64) -> Result<u64> {
+    fn read_het_table_size(&self, het_pos: u64) -> Result<u64> {
         // For compressed tables, calculate the actual size based on the next table position
         log::debug!("Determining HET table size from file structure");
 
@@ -1633,7 +1591,7 @@ impl Archive {
     }
 
     /// Read BET table size from the table header for V3 archives
-    fn read_bet_table_size(&mut self, bet_pos: u64) -> Result<u64> {
+    fn read_bet_table_size(&self, bet_pos: u64) -> Result<u64> {
         // For compressed tables, calculate the actual size based on the next table position
         log::debug!("Determining BET table size from file structure");
 
-- 
2.43.0


From 764feb145c6fb270f0feed1400d8358002fbe338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:14 +0000
Subject: [PATCH 46/58] fix: deleted files are not found

A file is deleted by resetting the exists flag of its block; its hash table
entry may stay. find_file() and read_file() still found such files, although
list_all() did not show them.
---
 mopaq/src/archive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 1d87f38..7aae906 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -883,6 +883,11 @@ impl Archive {
                 .get(hash_entry.block_index as usize)
                 .ok_or_else(|| Error::block_table("Invalid block index"))?;
 
+            // Deleted files may keep their hash table entry
+            if !block_entry.exists() {
+                return Ok(None);
+            }
+
             // Calculate full file position for v2+ archives
             let file_pos = if let Some(hi_block) = &self.hi_block_table {
                 let high_bits = hi_block.get_file_pos_high(hash_entry.block_index as usize);
-- 
2.43.0


From af223a698059e7f8fd84587522ba50f8bfe892b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:51 +0000
Subject: [PATCH 47/58] fix: refuse to build what does not fit the format

Files of 4 GB and more, and version 1 archives beyond 4 GB, were written
with truncated sizes, offsets and positions: the build succeeded, but the
contents could not be read back.
---
 mopaq/src/builder.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index b256f1b..0bbb573 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -710,6 +710,14 @@ impl ArchiveBuilder {
         // Calculate archive size
         let archive_size = writer.stream_position()?;
 
+        // Version 1 only has 32-bit positions
+        if self.version == FormatVersion::V1 && archive_size > u32::MAX as u64 {
+            return Err(Error::CapacityExceeded(format!(
+                "archive of {} bytes is too large for format version 1",
+                archive_size
+            )));
+        }
+
         // Write header at the beginning
         writer.seek(SeekFrom::Start(0))?;
         let header_params = HeaderWriteParams {
@@ -911,6 +919,8 @@ impl ArchiveBuilder {
         } = params;
         let mut flags = 0u32;
 
+        check_file_size(archive_name, file_data.len())?;
+
         // For small files or if single unit is requested, write as single unit
         let is_single_unit = file_data.len() <= *sector_size;
 
@@ -1050,6 +1060,7 @@ impl ArchiveBuilder {
             }
 
             // Set last offset
+            check_file_size(archive_name, data_start + sector_data.len())?;
             sector_offsets[sector_count] = (data_start + sector_data.len()) as u32;
 
             // Log CRC generation if enabled
@@ -1890,6 +1901,17 @@ impl Default for ArchiveBuilder {
     }
 }
 
+/// The format stores the sizes of files and the offsets of their sectors in 32 bits
+fn check_file_size(archive_name: &str, size: usize) -> Result<()> {
+    if size as u64 > u32::MAX as u64 {
+        return Err(Error::CapacityExceeded(format!(
+            "{} is too large ({} bytes)",
+            archive_name, size
+        )));
+    }
+    Ok(())
+}
+
 /// Checksum of the contents a reader gets back from a stored unit
 ///
 /// MPQ uses ADLER32 for sector checksums. ADPCM is lossy: its units do not decode to `data`.
-- 
2.43.0


From d8bd1ab03e954e61b3bc0119b6068c9ef01653e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:30 +0000
Subject: [PATCH 48/58] fix: ignore patterns are globs for paths below the
 source

The documented --ignore "*.tmp" ignored nothing, because patterns were only compared literally,
and a pattern occurring in the path of the source directory ignored every file.
---
 storm-cli/src/commands/archive.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 7da3571..53bff49 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -2,6 +2,7 @@
 
 use anyhow::{Context, Result};
 use colored::Colorize;
+use glob::Pattern;
 use mopaq::compression::CompressionMethod;
 use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption, OpenOptions, SignatureStatus};
 use serde_json;
@@ -108,24 +109,27 @@ fn add_directory_to_archive(
             continue;
         }
 
-        // Check ignore patterns
+        // Calculate relative path for archive
+        let relative_path = path
+            .strip_prefix(dir_path)
+            .context("Failed to calculate relative path")?;
+
+        // Check ignore patterns: parts of the path, or globs for the path or the file name
+        let relative_name = relative_path.to_string_lossy();
+        let file_name = path
+            .file_name()
+            .map(|name| name.to_string_lossy())
+            .unwrap_or_default();
         let should_ignore = options.ignore_patterns.iter().any(|pattern| {
-            path.to_string_lossy().contains(pattern)
-                || path
-                    .file_name()
-                    .map(|name| name.to_string_lossy().contains(pattern))
-                    .unwrap_or(false)
+            relative_name.contains(pattern.as_str())
+                || Pattern::new(pattern)
+                    .is_ok_and(|glob| glob.matches(&relative_name) || glob.matches(&file_name))
         });
 
         if should_ignore {
             continue;
         }
 
-        // Calculate relative path for archive
-        let relative_path = path
-            .strip_prefix(dir_path)
-            .context("Failed to calculate relative path")?;
-
         let archive_path = if archive_prefix.is_empty() {
             relative_path.to_string_lossy().to_string()
         } else {
-- 
2.43.0


From 276c4fd2e27441c22dff9a6c206c85fee98e0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:43 +0000
Subject: [PATCH 49/58] fix: extraction does not replace one extracted file by
 another

Without --preserve-path files of different directories go to the same place when their names are
equal; the last one silently replaced the others and success was reported.
---
 storm-cli/src/commands/file.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index 1fcabce..f947ec5 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -5,6 +5,7 @@ use colored::Colorize;
 use glob::Pattern;
 use mopaq::Archive;
 use regex::Regex;
+use std::collections::HashSet;
 use std::fs;
 use std::path::{Path, PathBuf};
 
@@ -133,6 +134,7 @@ pub fn extract(
         let file_entries = archive.list()?;
         let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
         let mut failed = 0usize;
+        let mut written: HashSet<PathBuf> = HashSet::new();
 
         for filename in &files {
             let data = match archive.read_file(filename) {
@@ -158,6 +160,17 @@ pub fn extract(
                 fs::create_dir_all(parent)?;
             }
 
+            // Never replace another file of this archive that goes to the same place
+            if !written.insert(output_path.clone()) && fs::read(&output_path)? != data {
+                eprintln!(
+                    "Failed to extract {}: another file was extracted to {}",
+                    filename,
+                    output_path.display()
+                );
+                failed += 1;
+                continue;
+            }
+
             fs::write(&output_path, data)?;
 
             if !global_opts.quiet {
-- 
2.43.0


From dadd1de489a977f6822079ab345ab7844303f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:15 +0000
Subject: [PATCH 50/58] fix: read single units that are stored as they are

A single unit announced as compressed that did not get smaller is stored without method byte, as
sectors are; its first byte was taken for a compression method.
---
 mopaq/src/archive.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7aae906..f8041c6 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1212,6 +1212,10 @@ impl Archive {
             0
         };
 
+        // As with sectors, a unit that did not get smaller is stored as it is
+        let unit_is_compressed =
+            file_info.is_compressed() && file_info.compressed_size != actual_file_size;
+
         // Read the file data
         if file_info.is_single_unit() || !file_info.is_compressed() {
             // Single unit or uncompressed file - read directly
@@ -1256,7 +1260,7 @@ impl Archive {
                 let expected_crc = crc_bytes.as_slice().read_u32_le()?;
 
                 // CRC is calculated on the decompressed data
-                let data_to_check = if file_info.is_compressed() {
+                let data_to_check = if unit_is_compressed {
                     // We need to decompress first to check CRC
                     if data.is_empty() {
                         return Err(Error::compression("Empty compressed data"));
@@ -1285,7 +1289,7 @@ impl Archive {
             }
 
             // Decompress if needed
-            if file_info.is_compressed() {
+            if unit_is_compressed {
                 if !data.is_empty() {
                     let (compression_type, compressed_data) = file_info.compressed_unit(&data);
                     log::debug!(
-- 
2.43.0


From 933189122279dbf9ee18cef59423d01cdfa16497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:19 +0000
Subject: [PATCH 51/58] fix: read empty compressed files without sector offset
 table

An empty file at the end of the archive that is announced as compressed could not be read, because
four bytes behind it were expected.
---
 mopaq/src/archive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index f8041c6..e31658c 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1326,6 +1326,11 @@ impl Archive {
             sector_size
         );
 
+        // An empty file has no sectors and needs no sector offset table
+        if sector_count == 0 {
+            return Ok(Vec::new());
+        }
+
         // Read sector offset table
         let offset_table_size = sector_count.saturating_add(1).saturating_mul(4);
         let mut offset_data = read_bytes_at(
-- 
2.43.0


From c7d89575bc1b2bed4d556d0f801a987c3f5a6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:23 +0000
Subject: [PATCH 52/58] fix: files deleted in the BET table are neither found
 nor counted

---
 mopaq/src/archive.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index e31658c..7c50672 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -640,7 +640,11 @@ impl Archive {
 
         // Count files
         let file_count = if let Some(bet) = &self.bet_table {
-            bet.header.file_count as usize
+            // Count used entries, deleted files keep theirs
+            (0..bet.header.file_count)
+                .filter_map(|index| bet.get_file_info(index))
+                .filter(|info| info.flags & crate::tables::BlockEntry::FLAG_EXISTS != 0)
+                .count()
         } else if let Some(block_table) = &self.block_table {
             // Count used entries in block table (a file may be empty)
             block_table
@@ -837,7 +841,11 @@ impl Archive {
                     bet.bet_hashes.get(index as usize) == Some(&jenkins_hash(filename))
                 });
                 if let Some(file_index) = file_index {
-                    if let Some(bet_info) = bet.get_file_info(file_index) {
+                    // Deleted files may keep their entries
+                    let bet_info = bet
+                        .get_file_info(file_index)
+                        .filter(|info| info.flags & crate::tables::BlockEntry::FLAG_EXISTS != 0);
+                    if let Some(bet_info) = bet_info {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
-- 
2.43.0


From 21ea4fb34ecd6be43578741c6d65e7aae6b43448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:25 +0000
Subject: [PATCH 53/58] fix: SFileEnumFiles reports a list file that cannot be
 read

---
 storm-ffi/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index f426451..62f2223 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -868,8 +868,14 @@ pub unsafe extern "C" fn SFileEnumFiles(
             set_last_error(ERROR_INVALID_HANDLE);
             return false;
         };
-        // No listfile is okay
-        archive_handle.archive.list().unwrap_or_default()
+        // No listfile is okay, one that cannot be read is not
+        match archive_handle.archive.list() {
+            Ok(entries) => entries,
+            Err(_) => {
+                set_last_error(ERROR_FILE_CORRUPT);
+                return false;
+            }
+        }
     };
 
     for entry in entries {
-- 
2.43.0


From 8a2a291d8cf987706fcd32e87857282db01141e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:29 +0000
Subject: [PATCH 54/58] fix: SFileVerifyArchive fails when the files cannot be
 listed

---
 storm-ffi/src/lib.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 62f2223..9d6a21c 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1245,14 +1245,9 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
         let file_list = match archive_handle.archive.list() {
             Ok(list) => list,
             Err(_) => {
-                // If we can't get the file list, try to enumerate from tables
-                match archive_handle.archive.list_all() {
-                    Ok(list) => list,
-                    Err(_) => {
-                        set_last_error(ERROR_FILE_CORRUPT);
-                        return false;
-                    }
-                }
+                // Without the names of its files they cannot be verified
+                set_last_error(ERROR_FILE_CORRUPT);
+                return false;
             }
         };
 
-- 
2.43.0


From 6f6fe9b2a547062f080c282f072efdf72774d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:02 +0000
Subject: [PATCH 55/58] fix: names that share the extended hash are told apart
 by the hash table

---
 mopaq/src/archive.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7c50672..b9463ec 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -840,6 +840,14 @@ impl Archive {
                 let file_index = het.find_file(filename).filter(|&index| {
                     bet.bet_hashes.get(index as usize) == Some(&jenkins_hash(filename))
                 });
+                // Different names may even share the full hash; the hash table, where there
+                // is one, tells them apart
+                let file_index = file_index.filter(|&index| match &self.hash_table {
+                    Some(hash_table) => hash_table
+                        .find_file(filename, 0)
+                        .is_some_and(|(_, entry)| entry.block_index == index),
+                    None => true,
+                });
                 if let Some(file_index) = file_index {
                     // Deleted files may keep their entries
                     let bet_info = bet
-- 
2.43.0


From f6d2549579d33e089aee56e40543df2a70c47d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:09 +0000
Subject: [PATCH 56/58] fix: positions beyond 4 GB are kept whole in the BET
 table

---
 mopaq/src/builder.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 0bbb573..1a2d165 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -806,7 +806,7 @@ impl ArchiveBuilder {
 
         // Create BET table
         let bet_table_pos = writer.stream_position()?;
-        let (bet_data, _bet_header) = self.create_bet_table(&block_table)?;
+        let (bet_data, _bet_header) = self.create_bet_table(&block_table, hi_block_table.as_ref())?;
         let (bet_table_size, bet_table_md5) = self.write_bet_table(writer, &bet_data, true)?;
 
         // For compatibility, also write classic tables
@@ -1667,9 +1667,19 @@ impl ArchiveBuilder {
     }
 
     /// Create BET table data
-    fn create_bet_table(&self, block_table: &BlockTable) -> Result<(Vec<u8>, BetHeader)> {
+    fn create_bet_table(
+        &self,
+        block_table: &BlockTable,
+        hi_block_table: Option<&HiBlockTable>,
+    ) -> Result<(Vec<u8>, BetHeader)> {
         let file_count = self.pending_files.len() as u32;
 
+        // Full position of a file, with the bits beyond 4 GB
+        let full_file_pos = |index: usize, entry: &BlockEntry| {
+            let high = hi_block_table.map_or(0, |hi| hi.get_file_pos_high(index));
+            (high << 32) | entry.file_pos as u64
+        };
+
         // Analyze block table to determine optimal bit widths
         let mut max_file_pos = 0u64;
         let mut max_file_size = 0u64;
@@ -1678,7 +1688,7 @@ impl ArchiveBuilder {
 
         for i in 0..file_count as usize {
             if let Some(entry) = block_table.get(i) {
-                max_file_pos = max_file_pos.max(entry.file_pos as u64);
+                max_file_pos = max_file_pos.max(full_file_pos(i, entry));
                 max_file_size = max_file_size.max(entry.file_size as u64);
                 max_compressed_size = max_compressed_size.max(entry.compressed_size as u64);
                 unique_flags.insert(entry.flags);
@@ -1765,10 +1775,26 @@ impl ArchiveBuilder {
                 // Write each field to the file table (an entry may be wider than 64 bits)
                 let entry_start = i * table_entry_size as usize;
                 for (bit_index, value, bit_count) in [
-                    (bit_index_file_pos, entry.file_pos, bit_count_file_pos),
-                    (bit_index_file_size, entry.file_size, bit_count_file_size),
-                    (bit_index_cmp_size, entry.compressed_size, bit_count_cmp_size),
-                    (bit_index_flag_index, *flag_index, bit_count_flag_index),
+                    (
+                        bit_index_file_pos,
+                        full_file_pos(i, entry),
+                        bit_count_file_pos,
+                    ),
+                    (
+                        bit_index_file_size,
+                        entry.file_size as u64,
+                        bit_count_file_size,
+                    ),
+                    (
+                        bit_index_cmp_size,
+                        entry.compressed_size as u64,
+                        bit_count_cmp_size,
+                    ),
+                    (
+                        bit_index_flag_index,
+                        *flag_index as u64,
+                        bit_count_flag_index,
+                    ),
                 ] {
                     for bit in 0..bit_count as usize {
                         if value >> bit & 1 != 0 {
-- 
2.43.0


From 17de8926d1cc762232631661b25b0965a96745f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:01 +0000
Subject: [PATCH 57/58] fix: analyze an archive without files in the requested
 output format

archive analyze printed nothing at all for JSON and CSV output when the
archive holds no files, so the machine-readable output was not well-formed.
---
 storm-cli/src/commands/archive.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 53bff49..80e60db 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -676,10 +676,8 @@ pub fn analyze(
     // Get file entries with detailed info
     let file_entries = archive.list_with_hashes()?;
 
-    if file_entries.is_empty() {
-        if global_opts.output == OutputFormat::Text {
-            println!("No files found in archive");
-        }
+    if file_entries.is_empty() && global_opts.output == OutputFormat::Text {
+        println!("No files found in archive");
         return Ok(());
     }
 
-- 
2.43.0


From 68c78d475f6850b1797186e164bb1bace669e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:00 +0000
Subject: [PATCH 58/58] fix: attributes compressed once more with PKWare are
 decompressed again

The exact size check of PKWare units (0449a4b) does not apply to a doubly
compressed (attributes) file, of which only the largest size is known.
---
 mopaq/src/archive.rs                | 6 +++++-
 mopaq/src/compression/decompress.rs | 8 ++++++++
 mopaq/src/compression/mod.rs        | 1 +
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index b9463ec..31f5276 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1535,7 +1535,11 @@ impl Archive {
                                 "Attempting to decompress attributes file with method 0x{:02X}",
                                 data[0]
                             );
-                            match compression::decompress(&data[1..], data[0], block_count * 100) {
+                            match compression::decompress_up_to(
+                                &data[1..],
+                                data[0],
+                                block_count * 100,
+                            ) {
                                 Ok(decompressed) => {
                                     log::info!("Successfully decompressed attributes file");
                                     data = decompressed;
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index cb867e2..ce959c6 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -56,6 +56,14 @@ pub fn decompress(data: &[u8], method: u8, decompressed_size: usize) -> Result<V
     }
 }
 
+/// Decompress data of which only the largest possible size is known
+pub(crate) fn decompress_up_to(data: &[u8], method: u8, max_size: usize) -> Result<Vec<u8>> {
+    if method == flags::PKWARE {
+        return algorithms::pkware::decompress(data, max_size);
+    }
+    decompress(data, method, max_size)
+}
+
 /// Handle multiple compression methods
 fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<Vec<u8>> {
     if data.is_empty() {
diff --git a/mopaq/src/compression/mod.rs b/mopaq/src/compression/mod.rs
index 8790b26..64beec1 100644
--- a/mopaq/src/compression/mod.rs
+++ b/mopaq/src/compression/mod.rs
@@ -8,4 +8,5 @@ mod methods;
 // Re-export the main public API
 pub use compress::compress;
 pub use decompress::decompress;
+pub(crate) use decompress::decompress_up_to;
 pub use methods::{flags, CompressionMethod};
-- 
2.43.0

