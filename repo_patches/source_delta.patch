From dc53871de4f50b8ba0db3020c61a50f6239a6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:29 +0000
Subject: [PATCH 01/21] fix: digest fixed-size chunks however the file is read,
 and fail on early end of file

---
 src/file_formats/elf/digest.rs    | 20 ++++----
 src/file_formats/module/digest.rs | 81 ++++++++++++++-----------------
 2 files changed, 46 insertions(+), 55 deletions(-)

diff --git a/src/file_formats/elf/digest.rs b/src/file_formats/elf/digest.rs
index 947e502..fa5cc78 100644
--- a/src/file_formats/elf/digest.rs
+++ b/src/file_formats/elf/digest.rs
@@ -2,7 +2,7 @@
 
 #![cfg(feature = "elf")]
 
-use std::io::{self, BufRead, BufReader, Read, Seek, SeekFrom};
+use std::io::{self, Read, Seek, SeekFrom};
 
 use crate::signing_block::algorithms::Algorithms;
 
@@ -55,17 +55,15 @@ pub fn digest_elf_sections<R: Read + Seek>(
     for (_name, offset, size) in sections {
         // Calculate chunked digest for each section
         file.seek(SeekFrom::Start(*offset))?;
-        let taker = file.take(*size);
-        let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
+        let mut remaining = *size;
+        let mut chunk = vec![0u8; remaining.min(CHUNK_SIZE as u64) as usize];
 
-        loop {
-            let chunk = reader.fill_buf()?;
-            let length = chunk.len();
-            if length == 0 {
-                break;
-            }
-            all_chunk_digests.push(digest_chunk(chunk, algo));
-            reader.consume(length);
+        // Chunks have a fixed size, however the reader splits the data
+        while remaining > 0 {
+            chunk.truncate(remaining.min(CHUNK_SIZE as u64) as usize);
+            file.read_exact(&mut chunk)?;
+            all_chunk_digests.push(digest_chunk(&chunk, algo));
+            remaining -= chunk.len() as u64;
         }
 
         // Reset for next section
diff --git a/src/file_formats/module/digest.rs b/src/file_formats/module/digest.rs
index 382b72b..6347327 100644
--- a/src/file_formats/module/digest.rs
+++ b/src/file_formats/module/digest.rs
@@ -2,7 +2,7 @@
 //!
 //! Gated behind the `hash` feature
 
-use std::io::{self, BufRead, BufReader, Read, Seek, SeekFrom};
+use std::io::{self, Read, Seek, SeekFrom};
 
 use super::zip::FileOffsets;
 use crate::signing_block::algorithms::Algorithms;
@@ -24,6 +24,30 @@ fn digest_chunk(chunk: &[u8], sig: &Algorithms) -> Vec<u8> {
     sig.hash(&data)
 }
 
+/// Digest the next `size` bytes of a reader, in chunks of [`CHUNK_SIZE`] bytes
+///
+/// The chunks do not depend on how the reader splits the data: reads that return less than
+/// asked for, or that are interrupted, are continued until the chunk is complete.
+/// # Errors
+/// Returns an error if the data cannot be read or ends before `size` bytes
+fn digest_chunks<R: Read>(
+    reader: &mut R,
+    size: usize,
+    sig: &Algorithms,
+) -> Result<Vec<Vec<u8>>, io::Error> {
+    let mut buffer = vec![0u8; size.min(CHUNK_SIZE)];
+    let mut digestives = Vec::new();
+    let mut remaining = size;
+    while remaining > 0 {
+        let length = remaining.min(CHUNK_SIZE);
+        buffer.truncate(length);
+        reader.read_exact(&mut buffer)?;
+        digestives.push(digest_chunk(&buffer, sig));
+        remaining -= length;
+    }
+    Ok(digestives)
+}
+
 /// Digest the contents of ZIP entries
 /// # Errors
 /// Returns an error if the file cannot be read
@@ -35,20 +59,7 @@ pub fn digest_zip_contents<R: Read + Seek>(
 ) -> Result<Vec<Vec<u8>>, io::Error> {
     let start = (start) as u64;
     file.seek(SeekFrom::Start(start))?;
-    let next_offset = (size) as u64;
-    let taker = file.take(next_offset);
-    let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
-    let mut digestives = Vec::new();
-    loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
-            break;
-        }
-        digestives.push(digest_chunk(chunk, sig));
-        reader.consume(length);
-    }
-    Ok(digestives)
+    digest_chunks(file, size, sig)
 }
 
 /// Digest the central directory
@@ -62,19 +73,7 @@ pub fn digest_central_directory<R: Read + Seek>(
 ) -> Result<Vec<Vec<u8>>, io::Error> {
     let next_offset = (start) as u64;
     file.seek(SeekFrom::Start(next_offset))?; // skip the signing block
-    let taker = file.take((size) as u64);
-    let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
-    let mut digestives = Vec::new();
-    loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
-            break;
-        }
-        digestives.push(digest_chunk(chunk, sig));
-        reader.consume(length);
-    }
-    Ok(digestives)
+    digest_chunks(file, size, sig)
 }
 
 /// Digest the end of central directory
@@ -89,8 +88,14 @@ pub fn digest_end_of_central_directory<R: Read + Seek>(
 ) -> Result<Vec<Vec<u8>>, io::Error> {
     let next_offset = (start) as u64;
     file.seek(SeekFrom::Start(next_offset))?;
-    let mut eocd_buff = Vec::with_capacity(eocd_size);
-    file.read_to_end(&mut eocd_buff)?;
+    let mut eocd_buff = Vec::new();
+    file.take(eocd_size as u64).read_to_end(&mut eocd_buff)?;
+    if eocd_buff.len() != eocd_size {
+        return Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "EOCD is shorter than expected",
+        ));
+    }
     // little manipulation to change the offset of the central directory offset
     let first_part = match eocd_buff.get(..16) {
         Some(data) => data,
@@ -106,20 +111,8 @@ pub fn digest_end_of_central_directory<R: Read + Seek>(
         second_part.to_vec(),
     ]
     .concat();
-    let reader = std::io::Cursor::new(eocd_buff);
-    let mut reader = BufReader::with_capacity(CHUNK_SIZE, reader);
-    let mut digestives = Vec::new();
-    loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
-            break;
-        }
-        let digest = digest_chunk(chunk, sig);
-        digestives.push(digest);
-        reader.consume(length);
-    }
-    Ok(digestives)
+    let mut reader = std::io::Cursor::new(&eocd_buff);
+    digest_chunks(&mut reader, eocd_buff.len(), sig)
 }
 
 /// Digest the final digest from all digests
-- 
2.43.0


From 8bb6c4d03af38944f9592e19004b650f017316ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 02/21] fix: only take a block that ends at the central
 directory as the signing block

---
 src/file_formats/module/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index e436a67..bbc188f 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -7,10 +7,11 @@ pub mod digest;
 
 use std::{
     fs::{read, File},
-    io::{copy, Read, Seek, Write},
+    io::{copy, Read, Seek, SeekFrom, Write},
     path::PathBuf,
 };
 
+use crate::signing_block::{MAGIC, MAGIC_LEN};
 use crate::SigningBlock;
 use zip::{find_eocd, EndOfCentralDirectoryRecord, FileOffsets};
 
@@ -91,7 +92,21 @@ impl Module {
                 // This tells from_reader to stop searching at the Central Directory position
                 let end_offset = self.file_len.saturating_sub(cd_offset);
 
-                let file = File::open(&self.path)?;
+                let mut file = File::open(&self.path)?;
+
+                // The signing block ends exactly where the Central Directory starts: a magic
+                // anywhere else belongs to the content of the ZIP entries
+                let mut magic = [0u8; MAGIC_LEN];
+                if let Some(magic_offset) = cd_offset.checked_sub(MAGIC_LEN) {
+                    file.seek(SeekFrom::Start(magic_offset as u64))?;
+                    file.read_exact(&mut magic)?;
+                }
+                if magic != *MAGIC {
+                    return Err(std::io::Error::other(
+                        "Magic not found before the central directory",
+                    ));
+                }
+
                 let sig = SigningBlock::from_reader(file, self.file_len, end_offset)?;
                 Ok(sig)
             }
-- 
2.43.0


From 9e4456afde5a7cfb9401e71984020c6ffe7fbd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:54 +0000
Subject: [PATCH 03/21] fix: replace the output of sign as a whole, so that a
 failure or signing in place destroys nothing

---
 src/cli/mod.rs    |  1 +
 src/cli/output.rs | 79 +++++++++++++++++++++++++++++++++++++++++++++++
 src/cli/sign.rs   | 11 ++++---
 3 files changed, 86 insertions(+), 5 deletions(-)
 create mode 100644 src/cli/output.rs

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 57b441b..7f2b7cc 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -7,6 +7,7 @@ pub mod cert;
 pub mod digest;
 #[cfg(feature = "verify")]
 pub mod info;
+mod output;
 #[cfg(feature = "keystore")]
 pub mod sign;
 #[cfg(feature = "verify")]
diff --git a/src/cli/output.rs b/src/cli/output.rs
new file mode 100644
index 0000000..17de0c8
--- /dev/null
+++ b/src/cli/output.rs
@@ -0,0 +1,79 @@
+//! Output files that are replaced as a whole or not at all
+
+use std::error::Error;
+use std::fs::{self, File, OpenOptions};
+use std::io::{self, BufWriter, Write};
+use std::path::{Path, PathBuf};
+
+/// Write an output file through a temporary file next to it
+///
+/// The output only appears, or is only replaced, once all of its data has been written, so that
+/// a failure or an interruption leaves what was there before, even if it is the input file.
+///
+/// # Errors
+/// Returns an error if `write` fails or the output cannot be written
+pub fn write_output<F>(path: &Path, write: F) -> Result<(), Box<dyn Error>>
+where
+    F: FnOnce(&mut BufWriter<File>) -> Result<(), Box<dyn Error>>,
+{
+    let found = match fs::symlink_metadata(path) {
+        Ok(meta) if meta.file_type().is_symlink() => match fs::metadata(path) {
+            Ok(meta) => Some(meta),
+            Err(err) if err.kind() == io::ErrorKind::NotFound => return write_direct(path, write),
+            Err(err) => return Err(err.into()),
+        },
+        Ok(meta) => Some(meta),
+        Err(err) if err.kind() == io::ErrorKind::NotFound => None,
+        Err(err) => return Err(err.into()),
+    };
+    let (target, permissions) = match found {
+        Some(meta) if meta.is_file() => (fs::canonicalize(path)?, Some(meta.permissions())),
+        Some(_) => return write_direct(path, write),
+        None => (path.to_path_buf(), None),
+    };
+
+    let (temp, file) = create_temp(&target)?;
+    let result = (|| {
+        let mut writer = BufWriter::new(file);
+        write(&mut writer)?;
+        writer.flush()?;
+        let file = writer.get_ref();
+        if let Some(permissions) = permissions {
+            file.set_permissions(permissions)?;
+        }
+        file.sync_all()?;
+        fs::rename(&temp, &target)?;
+        Ok(())
+    })();
+    if result.is_err() {
+        // Nothing more can be done if this fails too
+        let _ = fs::remove_file(&temp);
+    }
+    result
+}
+
+/// Write to what cannot be replaced by a rename: devices, pipes and dangling links
+fn write_direct<F>(path: &Path, write: F) -> Result<(), Box<dyn Error>>
+where
+    F: FnOnce(&mut BufWriter<File>) -> Result<(), Box<dyn Error>>,
+{
+    let mut writer = BufWriter::new(File::create(path)?);
+    write(&mut writer)?;
+    writer.flush()?;
+    Ok(())
+}
+
+/// Create a new file in the directory of `target`
+fn create_temp(target: &Path) -> Result<(PathBuf, File), io::Error> {
+    let mut attempt = 0u32;
+    loop {
+        let temp = target.with_file_name(format!(".ksusig-{}-{}.tmp", std::process::id(), attempt));
+        match OpenOptions::new().write(true).create_new(true).open(&temp) {
+            Ok(file) => return Ok((temp, file)),
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists && attempt < 1000 => {
+                attempt += 1;
+            }
+            Err(err) => return Err(err),
+        }
+    }
+}
diff --git a/src/cli/sign.rs b/src/cli/sign.rs
index c0b7876..f845dc8 100644
--- a/src/cli/sign.rs
+++ b/src/cli/sign.rs
@@ -7,10 +7,10 @@ use ksusig::{
 };
 #[cfg(feature = "elf")]
 use ksusig::{signing_block::elf_section_info::ElfSectionInfo, ValueSigningBlock};
-use std::fs::File;
-use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
+use super::output::write_output;
+
 /// Arguments for the sign command
 #[derive(Args)]
 pub struct SignArgs {
@@ -201,9 +201,10 @@ pub fn execute(args: SignArgs) -> Result<(), Box<dyn std::error::Error>> {
 
     // Write output file
     println!("Writing signed module...");
-    let mut writer = BufWriter::new(File::create(&args.output)?);
-    signable.write_with_signature(&mut writer, &signing_block)?;
-    writer.flush()?;
+    write_output(&args.output, |writer| {
+        signable.write_with_signature(writer, &signing_block)?;
+        Ok(())
+    })?;
 
     println!("✓ Signing successful!");
     println!("Output file: {}", args.output.display());
-- 
2.43.0


From 31fdab68c20e0d292a9e823045f6b972c6e02596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:56 +0000
Subject: [PATCH 04/21] fix: replace the output of digest --dump as a whole

---
 src/cli/digest.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/cli/digest.rs b/src/cli/digest.rs
index b520720..69543f1 100644
--- a/src/cli/digest.rs
+++ b/src/cli/digest.rs
@@ -6,6 +6,8 @@ use std::fs::File;
 use std::io::{Read, Seek, SeekFrom, Write};
 use std::path::PathBuf;
 
+use super::output::write_output;
+
 /// Arguments for the digest command
 #[derive(Args)]
 pub struct DigestArgs {
@@ -128,8 +130,27 @@ fn dump_regions(
     output_path: &PathBuf,
 ) -> Result<(), Box<dyn std::error::Error>> {
     let mut input = File::open(input_path)?;
-    let mut output = File::create(output_path)?;
+    let mut total_written: u64 = 0;
+    write_output(output_path, |output| {
+        total_written = copy_regions(&mut input, regions, output)?;
+        Ok(())
+    })?;
+
+    eprintln!(
+        "Dumped {} bytes to {}",
+        total_written,
+        output_path.display()
+    );
+
+    Ok(())
+}
 
+/// Copy the regions of the input to the output, in order
+fn copy_regions(
+    input: &mut File,
+    regions: &[ksusig::DigestRegion],
+    output: &mut impl Write,
+) -> Result<u64, Box<dyn std::error::Error>> {
     // Use a fixed-size buffer for streaming copy to avoid OOM on large files
     const BUFFER_SIZE: usize = 64 * 1024; // 64 KB buffer
     let mut buffer = vec![0u8; BUFFER_SIZE];
@@ -152,15 +173,7 @@ fn dump_regions(
         total_written += region.size;
     }
 
-    output.flush()?;
-
-    eprintln!(
-        "Dumped {} bytes to {}",
-        total_written,
-        output_path.display()
-    );
-
-    Ok(())
+    Ok(total_written)
 }
 
 /// Encode bytes as hex string
-- 
2.43.0


From 0582ae04835283b908568d68f03b2b4b7b5f396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:55 +0000
Subject: [PATCH 05/21] fix: reject a central directory offset beyond the end
 of central directory

---
 src/file_formats/module/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index bbc188f..537e02d 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -262,7 +262,14 @@ impl Module {
     /// Or a problem occurs
     pub fn find_eocd(&self) -> Result<EndOfCentralDirectoryRecord, std::io::Error> {
         let mut file = File::open(&self.path)?;
-        find_eocd(&mut file, self.file_len)
+        let eocd = find_eocd(&mut file, self.file_len)?;
+        if eocd.cd_offset as usize > eocd.file_offset {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Central directory starts after the end of central directory record",
+            ));
+        }
+        Ok(eocd)
     }
 
     /// Get the offsets of the Module file.
-- 
2.43.0


From cd1468ce365ba8008a6275f1588dbcf7570682ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:57 +0000
Subject: [PATCH 06/21] fix: keep the bytes after the end of central directory
 when signing a module

---
 src/file_formats/module/mod.rs | 39 +++++++++++++++++++++++-----------
 src/signable.rs                |  9 +++++++-
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index 537e02d..10e4d99 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -366,20 +366,35 @@ impl Module {
         })?;
 
         let eocd_serialized = eocd.to_u8();
+        let end_eocd = eocd.file_offset + eocd_serialized.len();
 
-        let end_without_sig =
-            match full_raw_file.get(end_sig..(full_raw_file.len() - eocd_serialized.len())) {
-                Some(data) => data,
-                None => {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::InvalidData,
-                        "Invalid end signature",
-                    ))
-                }
-            };
+        let end_without_sig = match full_raw_file.get(end_sig..eocd.file_offset) {
+            Some(data) => data,
+            None => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "Invalid end signature",
+                ))
+            }
+        };
+        // bytes after the EOCD belong to the module too: they are part of its digest
+        let trailing = match full_raw_file.get(end_eocd..) {
+            Some(data) => data,
+            None => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "Invalid end of central directory",
+                ))
+            }
+        };
 
-        let module_without_signature =
-            [start_without_sig, end_without_sig, &eocd_serialized].concat();
+        let module_without_signature = [
+            start_without_sig,
+            end_without_sig,
+            &eocd_serialized,
+            trailing,
+        ]
+        .concat();
 
         Ok(module_without_signature)
     }
diff --git a/src/signable.rs b/src/signable.rs
index 3309b75..dcff022 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -380,7 +380,14 @@ impl Signable for Module {
         eocd.cd_offset = new_cd_offset as u32;
 
         debug_assert_eq!(cd_size + eocd_size + cd_offset, raw_bytes.len());
-        writer.write_all(&eocd.to_u8())?;
+        let eocd_bytes = eocd.to_u8();
+        writer.write_all(&eocd_bytes)?;
+
+        // bytes after the EOCD belong to the module too: they are part of its digest
+        let trailing_slice = raw_bytes
+            .get(eocd_offset + eocd_bytes.len()..)
+            .ok_or_else(|| SignableError::Parse("EOCD 范围越界".to_string()))?;
+        writer.write_all(trailing_slice)?;
         Ok(())
     }
 }
-- 
2.43.0


From ff36818054d763ff7f27b41c8d4c6ae5924ffa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:23 +0000
Subject: [PATCH 07/21] fix: digest, strip and write a module by what its file
 holds, also once it is signed in memory

---
 src/file_formats/module/mod.rs | 56 +++++++++++-----------------------
 src/signable.rs                |  4 +--
 2 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index 10e4d99..02e9590 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -7,7 +7,7 @@ pub mod digest;
 
 use std::{
     fs::{read, File},
-    io::{copy, Read, Seek, SeekFrom, Write},
+    io::{Read, Seek, SeekFrom, Write},
     path::PathBuf,
 };
 
@@ -328,7 +328,7 @@ impl Module {
     #[cfg(feature = "hash")]
     pub fn digest(&self, algo: &Algorithms) -> Result<Vec<u8>, std::io::Error> {
         let mut file = File::open(&self.path)?;
-        let offsets = self.get_offsets()?;
+        let offsets = self.on_disk().get_offsets()?;
         digest_module(&mut file, &offsets, algo)
     }
 
@@ -342,7 +342,7 @@ impl Module {
             return Ok(full_raw_file);
         }
 
-        let sig = self.get_signing_block()?;
+        let sig = self.on_disk().get_signing_block()?;
 
         let start_sig = sig.file_offset_start;
         let end_sig = sig.file_offset_end;
@@ -404,40 +404,20 @@ impl Module {
     /// Returns a string if the writing fails.
     pub fn write_with_signature<W: Write>(&self, writer: &mut W) -> Result<(), std::io::Error> {
         let sig = self.get_signing_block()?;
-        let offsets = self.get_offsets()?;
-        let mut eocd = self.find_eocd()?;
-        eocd.cd_offset = eocd
-            .cd_offset
-            .checked_add(sig.get_full_size() as u32)
-            .ok_or_else(|| {
-                std::io::Error::new(
-                    std::io::ErrorKind::InvalidData,
-                    "Invalid signing block: offset overflow when adding signature",
-                )
-            })?;
-        let oecd_serialized = eocd.to_u8();
-        let eocd_len = oecd_serialized.len();
-
-        // copy entries
-        let file_reader = File::open(&self.path)?;
-        let mut reader_entries = file_reader.take(offsets.stop_content as u64);
-        copy(&mut reader_entries, writer)?;
-
-        // copy signature block
-        writer.write_all(&sig.to_u8())?;
-
-        // copy zip central directory
-        let mut file_reader_end = File::open(&self.path)?;
-        let seek_end = (offsets.start_cd - sig.get_full_size()) as u64;
-        file_reader_end.seek(std::io::SeekFrom::Start(seek_end))?;
-        let take = (offsets.stop_eocd - offsets.start_cd - eocd_len) as u64;
-        let mut file_reader_end = file_reader_end.take(take);
-        copy(&mut file_reader_end, writer)?;
-
-        // copy end of central directory
-        writer.write_all(&oecd_serialized)?;
+        crate::Signable::write_with_signature(self, writer, &sig).map_err(|e| match e {
+            crate::SignableError::Io(e) => e,
+            e => std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()),
+        })
+    }
 
-        Ok(())
+    /// The Module as it is in the file, without a signature that has not been written yet.
+    pub(crate) fn on_disk(&self) -> Self {
+        Self {
+            raw: self.raw,
+            path: self.path.clone(),
+            file_len: self.file_len,
+            sig: None,
+        }
     }
 
     /// Sign the Module file with the given algorithm.
@@ -487,8 +467,8 @@ impl Module {
             SigningBlock::new_with_padding(vec![ValueSigningBlock::new_v2(Signers::new(vec![
                 one_signer,
             ]))])?;
-        let eocd = self.find_eocd()?;
-        signing_block.offset_by(eocd.cd_offset as usize);
+        let offsets = self.on_disk().get_offsets()?;
+        signing_block.offset_by(offsets.stop_content);
 
         self.sig = Some(signing_block);
         Ok(())
diff --git a/src/signable.rs b/src/signable.rs
index dcff022..c51b673 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -280,7 +280,7 @@ impl Signable for Module {
     }
 
     fn digest_regions(&self) -> Result<Vec<DigestRegion>, Self::Error> {
-        let offsets = Self::get_offsets(self)?;
+        let offsets = self.on_disk().get_offsets()?;
         Ok(vec![
             DigestRegion {
                 name: "zip_entries".to_string(),
@@ -328,7 +328,7 @@ impl Signable for Module {
 
         let signing_block_bytes = signing_block.to_u8();
 
-        let (raw_bytes, mut eocd) = match Self::get_signing_block(self) {
+        let (raw_bytes, mut eocd) = match Self::get_signing_block(&self.on_disk()) {
             Ok(_) => {
                 // Existing valid signature - strip it via get_raw_module
                 let bytes = Self::get_raw_module(self)?;
-- 
2.43.0


From f14219d9ef294a79c376989fb0da394a2d883d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:12 +0000
Subject: [PATCH 08/21] fix: report differing block sizes as an error instead
 of asserting

---
 src/signing_block/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 1ef991c..03c7b53 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -535,7 +535,6 @@ impl SigningBlock {
                 }
             };
         let end_block_size = u64::from_le_bytes(create_fixed_buffer_8(end_size)) as usize;
-        debug_assert_eq!(start_block_size, end_block_size);
         if start_block_size != end_block_size {
             return Err(format!(
                 "Error: start_block_size {} is different from end_block_size {}",
-- 
2.43.0


From da0c9f17967cd95cab51d6d8b26ca751bf22ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:14 +0000
Subject: [PATCH 09/21] fix: no arithmetic underflow when a signing block in
 memory is cut off

---
 src/signing_block/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 03c7b53..2c4cf77 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -619,7 +619,10 @@ impl SigningBlock {
                 }
             };
             if magic == MAGIC {
-                let size_part = match data.get(start_magic - SIZE_UINT64..start_magic) {
+                let size_part = match start_magic
+                    .checked_sub(SIZE_UINT64)
+                    .and_then(|start_size| data.get(start_size..start_magic))
+                {
                     Some(v) => v,
                     None => {
                         return Err(format!(
@@ -638,8 +641,7 @@ impl SigningBlock {
                     ));
                 }
 
-                let start_full_block = match start_magic.checked_sub(size - MAGIC_LEN + SIZE_UINT64)
-                {
+                let start_full_block = match end_magic.checked_sub(size + SIZE_UINT64) {
                     Some(v) => v,
                     None => {
                         return Err(format!(
-- 
2.43.0


From eca2cab2e1619cfcacf48515b567a67c39b4b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:16 +0000
Subject: [PATCH 10/21] fix: do not reserve memory for an unchecked number of
 ELF sections

---
 src/signing_block/elf_section_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signing_block/elf_section_info.rs b/src/signing_block/elf_section_info.rs
index adef9e9..4dc43ff 100644
--- a/src/signing_block/elf_section_info.rs
+++ b/src/signing_block/elf_section_info.rs
@@ -132,7 +132,8 @@ impl ElfSectionInfo {
     /// Returns error if parsing fails
     pub fn parse(size: usize, id: u32, data: &mut MyReader) -> Result<Self, String> {
         let section_count = data.read_u32()?;
-        let mut sections = Vec::with_capacity(section_count as usize);
+        // the count is not trustworthy enough to reserve memory for it
+        let mut sections = Vec::new();
         for _ in 0..section_count {
             sections.push(SectionEntry::parse(data)?);
         }
-- 
2.43.0


From cb5354b7e380c4e5864e43cbf1686cf25faa3508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 11/21] fix: check the size of signers, digests and signatures
 against the data

---
 src/common.rs                  | 2 ++
 src/signing_block/scheme_v2.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index 3fede1c..0e3e53e 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -37,6 +37,7 @@ impl Digest {
     /// Returns a string if the data is not valid.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size = data.read_size()?;
+        let data = &mut data.as_slice(size)?;
         let signature_algorithm_id = data.read_u32()?;
         let algo = Algorithms::from(signature_algorithm_id);
         let digest_size = data.read_size()?;
@@ -332,6 +333,7 @@ impl Signature {
     /// Returns a string if the data is not valid.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size = data.read_size()?;
+        let data = &mut data.as_slice(size)?;
         let signature_algorithm_id = data.read_u32()?;
         let algo = Algorithms::from(signature_algorithm_id);
         let signature_size = data.read_size()?;
diff --git a/src/signing_block/scheme_v2.rs b/src/signing_block/scheme_v2.rs
index 6363254..9960397 100644
--- a/src/signing_block/scheme_v2.rs
+++ b/src/signing_block/scheme_v2.rs
@@ -122,6 +122,7 @@ impl Signer {
     /// Returns a string if the parsing fails.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size_one_signer = data.read_size()?;
+        let data = &mut data.as_slice(size_one_signer)?;
         let signed_data = SignedData::parse(data)?;
         let signatures = Signatures::parse(data)?;
         let pub_key = PubKey::parse(data)?;
-- 
2.43.0


From 02a35daaa85ea26ac265e646c94c05e9f95fa3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:41 +0000
Subject: [PATCH 12/21] fix: do not fill the output up to an absurd alignment
 of the section name table

---
 src/file_formats/elf/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 7c48044..0c09ba9 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -221,7 +221,10 @@ impl ElfFile {
         let shstrtab_header = section_headers
             .get(shstrtab_index)
             .ok_or_else(|| ElfError::Value("缺少 section name 表".to_string()))?;
+        // an alignment beyond a page is damage, and would blow up the output
         let shstr_align = usize::try_from(shstrtab_header.sh_addralign)
+            .ok()
+            .filter(|align| *align <= MAX_SHSTRTAB_ALIGN)
             .unwrap_or(1)
             .max(1);
 
@@ -336,6 +339,9 @@ impl ElfFile {
     }
 }
 
+/// Largest alignment of the section name table that is kept when the table moves
+const MAX_SHSTRTAB_ALIGN: usize = 64 * 1024;
+
 /// Align value upwards to `align` boundary
 const fn align_to(value: usize, align: usize) -> usize {
     if align == 0 {
-- 
2.43.0


From a19480f213c6201a2615cafb0fef14335e476469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:51 +0000
Subject: [PATCH 13/21] fix: pad a signing block that ends just before a 4096
 byte boundary

---
 src/signing_block/mod.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 2c4cf77..c0c6614 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -271,7 +271,6 @@ impl SigningBlock {
     /// Returns an error if:
     /// - A padding block already exists in content
     /// - The resulting block exceeds `MAX_SIGNING_BLOCK_SIZE` (16 KB)
-    /// - Padding calculation fails
     pub fn new_with_padding(content: Vec<ValueSigningBlock>) -> Result<Self, std::io::Error> {
         for c in &content {
             if c.id() == VERITY_PADDING_BLOCK_ID {
@@ -284,18 +283,11 @@ impl SigningBlock {
         let padding_block = match almost_full_size % 4096 {
             0 => Vec::new(),
             v => {
-                let padding_size = match (4096_usize)
-                    .checked_sub(v + mem::size_of::<u32>() + mem::size_of::<u64>())
-                {
+                let header_size = mem::size_of::<u32>() + mem::size_of::<u64>();
+                // if the gap has no room for the header of a padding block, fill the next 4096 bytes too
+                let padding_size = match (4096_usize).checked_sub(v + header_size) {
                     Some(v) => v,
-                    None => {
-                        return Err(std::io::Error::other(
-                            format!(
-                                "Error: remaining size {} is too low to add padding block - try to manually pad the inner block",
-                                4096 - v - mem::size_of::<u32>() - mem::size_of::<u64>()
-                            ),
-                        ));
-                    }
+                    None => 2 * 4096 - v - header_size,
                 };
                 vec![ValueSigningBlock::BaseSigningBlock(RawData::new(
                     VERITY_PADDING_BLOCK_ID,
-- 
2.43.0


From 5b8272d714b5c6a1456802dcf0f76144c663a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:52 +0000
Subject: [PATCH 14/21] fix: refuse to sign an ELF file with a signing block
 too large to be read back

---
 src/cli/sign.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cli/sign.rs b/src/cli/sign.rs
index f845dc8..0a008f5 100644
--- a/src/cli/sign.rs
+++ b/src/cli/sign.rs
@@ -6,7 +6,7 @@ use ksusig::{
     load_p12, load_pem, FileFormat, ModuleSigner, ModuleSignerConfig, SignableFile,
 };
 #[cfg(feature = "elf")]
-use ksusig::{signing_block::elf_section_info::ElfSectionInfo, ValueSigningBlock};
+use ksusig::{signing_block::elf_section_info::ElfSectionInfo, SigningBlock, ValueSigningBlock};
 use std::path::PathBuf;
 
 use super::output::write_output;
@@ -190,7 +190,8 @@ pub fn execute(args: SignArgs) -> Result<(), Box<dyn std::error::Error>> {
         signing_block
             .content
             .push(ValueSigningBlock::ElfSectionInfoBlock(section_info));
-        signing_block.recalculate_size();
+        // checks the size again
+        signing_block = SigningBlock::new(signing_block.content)?;
     }
 
     let signing_block_size = signing_block.to_u8().len();
-- 
2.43.0


From 09556eb81165657e91ae32c0ae6b04705ff667e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:37 +0000
Subject: [PATCH 15/21] fix: a signer without any signature has no valid
 signature

---
 src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index 5177e15..c6c783a 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -696,7 +696,7 @@ impl SignatureVerifier {
                     };
 
                     // Verify each signature
-                    let mut sig_valid = true;
+                    let mut sig_valid = !signer.signatures.signatures_data.is_empty();
                     for sig in signer.signatures.signatures_data.iter() {
                         let algo = &sig.signature_algorithm_id;
 
@@ -849,7 +849,7 @@ impl SignatureVerifier {
                 };
 
                 // Verify each signature and digest
-                let mut sig_valid = true;
+                let mut sig_valid = !stamp_block.signatures.signatures_data.is_empty();
                 let mut digest_verified = false;
 
                 for sig in &stamp_block.signatures.signatures_data {
-- 
2.43.0


From c244e2b6513d38327757648794481c1d4689e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:53 +0000
Subject: [PATCH 16/21] fix: refuse a certificate file with a damaged or
 incomplete certificate instead of dropping the chain

---
 src/keystore.rs | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/keystore.rs b/src/keystore.rs
index b79599e..1b93107 100644
--- a/src/keystore.rs
+++ b/src/keystore.rs
@@ -191,22 +191,6 @@ fn parse_private_key_pem(
     ))
 }
 
-/// Parse a certificate from PEM format and return DER bytes
-/// # Errors
-/// Returns an error if the PEM data is invalid
-fn parse_certificate_pem(pem_data: &[u8]) -> Result<Vec<u8>, KeystoreError> {
-    let pem = pem::parse(pem_data).map_err(|e| KeystoreError::PemError(e.to_string()))?;
-
-    if pem.tag() != "CERTIFICATE" {
-        return Err(KeystoreError::CertError(format!(
-            "Expected CERTIFICATE, got {}",
-            pem.tag()
-        )));
-    }
-
-    Ok(pem.into_contents())
-}
-
 /// Parse certificate chain from PEM format
 ///
 /// Supports both single certificate and certificate chain files.
@@ -226,6 +210,20 @@ fn parse_certificate_chain_pem(pem_data: &[u8]) -> Result<(Vec<u8>, Vec<Vec<u8>>
     // Try to parse multiple PEM blocks
     match pem::parse_many(pem_data) {
         Ok(pem_blocks) => {
+            // The parser skips a block that is cut off: do not go on with a part of the chain
+            let count = |marker: &[u8]| {
+                pem_data
+                    .windows(marker.len())
+                    .filter(|window| *window == marker)
+                    .count()
+            };
+            if count(b"-----BEGIN ") != pem_blocks.len() || count(b"-----END ") != pem_blocks.len()
+            {
+                return Err(KeystoreError::PemError(
+                    "Incomplete PEM block in certificate file".to_string(),
+                ));
+            }
+
             if pem_blocks.is_empty() {
                 return Err(KeystoreError::CertError(
                     "No certificates found in PEM data".to_string(),
@@ -254,11 +252,7 @@ fn parse_certificate_chain_pem(pem_data: &[u8]) -> Result<(Vec<u8>, Vec<Vec<u8>>
 
             Ok((end_entity, chain))
         }
-        Err(_) => {
-            // Fallback: try to parse as single certificate
-            let cert = parse_certificate_pem(pem_data)?;
-            Ok((cert, Vec::new()))
-        }
+        Err(e) => Err(KeystoreError::PemError(e.to_string())),
     }
 }
 
-- 
2.43.0


From 605f0ae1c6831c158c9c0b1a90b331653b1d5de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:24 +0000
Subject: [PATCH 17/21] fix: check the integrity of a P12 file before using
 what it contains

---
 src/keystore.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/keystore.rs b/src/keystore.rs
index 1b93107..effc9e6 100644
--- a/src/keystore.rs
+++ b/src/keystore.rs
@@ -283,6 +283,17 @@ pub fn load_p12_from_bytes(
 ) -> Result<SignerCredentials, KeystoreError> {
     let p12 = p12::PFX::parse(data).map_err(|e| KeystoreError::P12Error(format!("{:?}", e)))?;
 
+    // Nothing else notices damage to the contents (the p12 crate knows SHA-1 MACs only)
+    let checkable = p12
+        .mac_data
+        .as_ref()
+        .is_some_and(|mac| mac.mac.digest_algorithm == p12::AlgorithmIdentifier::Sha1);
+    if checkable && !p12.verify_mac(password) {
+        return Err(KeystoreError::P12Error(
+            "Integrity check failed: wrong password or damaged file".to_string(),
+        ));
+    }
+
     // Decrypt and extract keys and certs
     let keys = p12
         .key_bags(password)
-- 
2.43.0


From 817a916e0e5bb9b4bc72042a8e0b553ba8ceee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:19 +0000
Subject: [PATCH 18/21] fix: info shows the signing block that verification
 uses

It searched the whole file backwards for the magic: an intact block could
be missed and bytes that merely resemble a block were described.
---
 src/cli/info.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cli/info.rs b/src/cli/info.rs
index 2381ab0..a4901b4 100644
--- a/src/cli/info.rs
+++ b/src/cli/info.rs
@@ -1,9 +1,7 @@
 //! Info command - Display signing block information
 
 use clap::Args;
-use ksusig::{SignatureVerifier, SigningBlock};
-use std::fs::File;
-use std::io::{BufReader, Seek, SeekFrom};
+use ksusig::{SignableFile, SignatureVerifier};
 use std::path::PathBuf;
 
 use super::cert::{describe_certificate, describe_chain};
@@ -18,17 +16,16 @@ pub struct InfoArgs {
 
 /// Execute the info command
 pub fn execute(args: InfoArgs) -> Result<(), Box<dyn std::error::Error>> {
-    let file = File::open(&args.module)?;
-    let mut reader = BufReader::new(file);
-
-    let file_len = reader.seek(SeekFrom::End(0))? as usize;
+    let file_len = std::fs::metadata(&args.module)?.len();
 
     println!("File: {}", args.module.display());
     println!("File size: {} bytes", file_len);
     println!();
 
-    match SigningBlock::from_reader(reader, file_len, 0) {
-        Ok(sig_block) => {
+    // The block is looked for where verification looks for it, so that bytes
+    // elsewhere in the file that resemble a block are never described here.
+    match SignableFile::open(&args.module).and_then(|file| file.signing_block()) {
+        Ok(Some(sig_block)) => {
             println!("✓ KSU signing block found");
             println!(
                 "  Location: {} - {}",
@@ -124,6 +121,10 @@ pub fn execute(args: InfoArgs) -> Result<(), Box<dyn std::error::Error>> {
 
             Ok(())
         }
+        Ok(None) => {
+            eprintln!("✗ Error: No KSU signing block found");
+            Err("No KSU signing block found".into())
+        }
         Err(e) => {
             eprintln!("✗ Error: Cannot parse KSU signing block");
             eprintln!("  Details: {:?}", e);
-- 
2.43.0


From 20bc7a9a4e2b521ac6c8ce20de743fabfad048be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:22 +0000
Subject: [PATCH 19/21] fix: offsets of an ELF signing block are offsets in the
 file

They were relative to the .ksu_sign section, contrary to their documentation.
---
 src/file_formats/elf/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 0c09ba9..2e4f0cc 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -177,9 +177,11 @@ impl ElfFile {
                 .data
                 .get(start..end)
                 .ok_or_else(|| ElfError::Value("签名段范围越界".to_string()))?;
-            return SigningBlock::from_u8(bytes)
-                .map(Some)
-                .map_err(|e| ElfError::Value(format!("无法解析签名块: {}", e)));
+            let mut block = SigningBlock::from_u8(bytes)
+                .map_err(|e| ElfError::Value(format!("无法解析签名块: {}", e)))?;
+            // The block's offsets are offsets in the file, not in the section
+            block.offset_by(start);
+            return Ok(Some(block));
         }
         Ok(None)
     }
-- 
2.43.0


From 9d801276f4f6f3f8012276a468b792304aaa5a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 20/21] fix: refuse a signing block whose parts do not account
 for all its bytes

Bytes after the last part of a signer, digest or signature were replaced by
zeros when the block was written again, and verification checked the signature
over the zeros, not over the bytes in the file: a block altered there was
accepted as intact. The lists of certificates, signatures and attributes could
reach beyond their own length.
---
 src/common.rs            | 12 ++++++------
 src/signing_block/mod.rs | 11 +++++++++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 0e3e53e..1bbab57 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -154,8 +154,8 @@ impl Certificates {
             size: size_certificates,
             certificates_data: Vec::new(),
         };
-        let pos_max_cert = data.get_pos() + size_certificates;
-        while data.get_pos() < pos_max_cert {
+        let data = &mut data.as_slice(size_certificates)?;
+        while data.get_pos() < data.len() {
             certificates
                 .certificates_data
                 .push(Certificate::parse(data)?);
@@ -280,8 +280,8 @@ impl Signatures {
         if size == 0 {
             return Ok(signatures);
         }
-        let max_signatures = data.get_pos() + size;
-        while data.get_pos() < max_signatures {
+        let data = &mut data.as_slice(size)?;
+        while data.get_pos() < data.len() {
             signatures.signatures_data.push(Signature::parse(data)?);
         }
         Ok(signatures)
@@ -396,8 +396,8 @@ impl AdditionalAttributes {
             size: size_additional_attributes,
             additional_attributes_data: Vec::new(),
         };
-        let max_pos_attributes = data.get_pos() + size_additional_attributes;
-        while data.get_pos() < max_pos_attributes {
+        let data = &mut data.as_slice(size_additional_attributes)?;
+        while data.get_pos() < data.len() {
             additional_attributes
                 .additional_attributes_data
                 .push(AdditionalAttribute::parse(data)?);
diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index c0c6614..20dc7d9 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -576,7 +576,7 @@ impl SigningBlock {
                 return Err(format!("Error extracting values: {}", e));
             }
         };
-        Ok(Self {
+        let block = Self {
             magic: MAGIC.to_owned(),
             file_offset_start: 0,
             file_offset_end: data.len(),
@@ -584,7 +584,14 @@ impl SigningBlock {
             content,
             size_of_block_end: end_block_size,
             size_of_block_start: start_block_size,
-        })
+        };
+        // Bytes that belong to no part would be lost, and no signature would cover them
+        if block.to_u8() != data {
+            return Err(
+                "Error: the parts of the block do not account for all its bytes".to_string(),
+            );
+        }
+        Ok(block)
     }
 
     /// Extract the KSU Signing Block from the Module file
-- 
2.43.0


From 07c699c7107a835bfbe04d6ec239f8262f70b1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:04 +0000
Subject: [PATCH 21/21] fix: refuse to sign an ELF section that covers the ELF
 header

Signing rewrites e_shoff and e_shnum after the digest is taken, so the
signature of such a section did not match the file it was written to.
---
 src/file_formats/elf/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 2e4f0cc..466b267 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -318,6 +318,11 @@ impl ElfFile {
     /// # Errors
     /// Returns an error if sections are missing or invalid
     fn collect_sections(&self, elf: &Elf<'_>) -> Result<Vec<(String, u64, u64)>, ElfError> {
+        let ctx = Ctx {
+            container: elf.header.container()?,
+            le: elf.header.endianness()?,
+        };
+        let header_size = header::Header::size_with(&ctx) as u64;
         let mut sections = Vec::new();
         for name in &self.signed_sections {
             let sh =
@@ -334,6 +339,13 @@ impl ElfFile {
                     name
                 )));
             }
+            // signing rewrites the ELF header, so nothing that is signed may contain it
+            if sh.sh_offset < header_size {
+                return Err(ElfError::Value(format!(
+                    "section {} 与 ELF 头重叠，无法参与签名",
+                    name
+                )));
+            }
             sections.push((name.clone(), sh.sh_offset, sh.sh_size));
         }
         sections.sort_by_key(|(_, offset, _)| *offset);
-- 
2.43.0

