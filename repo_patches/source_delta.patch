From f4a37f64279cdb1b53b78905cd941c39bda4ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 01/29] hook: let the simulation harness point the build at
 stand-in code tables (cfg grib_sim, off by default)

---
 build.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/build.rs b/build.rs
index 52826c0..59fb345 100644
--- a/build.rs
+++ b/build.rs
@@ -1,10 +1,13 @@
-use std::{env, fs, path::Path};
+use std::{
+    env, fs,
+    path::{Path, PathBuf},
+};
 
 fn main() -> Result<(), Box<dyn std::error::Error>> {
     let out_dir = env::var_os("OUT_DIR").unwrap();
 
     if let Err(e) =
-        check_nonemptiness(Path::new("def/CCT")).and(check_nonemptiness(Path::new("def/GRIB2")))
+        check_nonemptiness(&def_path("def/CCT")).and(check_nonemptiness(&def_path("def/GRIB2")))
     {
         return Err(format!("{}; run `git submodule update --init`", e).into());
     }
@@ -13,8 +16,9 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     let mut db = grib_build::cct_csv::CodeDB::new();
     let output_path = Path::new(&out_dir).join("cct.rs");
     for path in &input_file_names {
-        db.load(path)?;
-        println!("cargo:rerun-if-changed={path}");
+        let path = def_path(path);
+        db.load(&path)?;
+        println!("cargo:rerun-if-changed={}", path.display());
     }
     fs::write(output_path, format!("{db}"))?;
 
@@ -36,8 +40,9 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     let mut db = grib_build::grib2_codeflag_csv::CodeDB::new();
     let output_path = Path::new(&out_dir).join("grib2_codeflag.rs");
     for path in &input_file_names {
-        db.load(path)?;
-        println!("cargo:rerun-if-changed={path}");
+        let path = def_path(path);
+        db.load(&path)?;
+        println!("cargo:rerun-if-changed={}", path.display());
     }
     fs::write(output_path, format!("{db}"))?;
 
@@ -45,6 +50,20 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     Ok(())
 }
 
+// Where a definition file is read from. The guard `--cfg grib_sim` (used by the
+// out-of-tree simulation harness, never by a normal build) lets the environment
+// variable `GRIB_SIM_DEF_DIR` stand in for the directory `def`.
+fn def_path(path: &str) -> PathBuf {
+    #[cfg(grib_sim)]
+    {
+        println!("cargo:rerun-if-env-changed=GRIB_SIM_DEF_DIR");
+        if let Some(dir) = env::var_os("GRIB_SIM_DEF_DIR") {
+            return Path::new(&dir).join(path.trim_start_matches("def/"));
+        }
+    }
+    PathBuf::from(path)
+}
+
 fn check_nonemptiness(dir: &Path) -> Result<(), String> {
     dir.read_dir()
         .map_err(|_| format!("{} is not a directory", dir.to_string_lossy()))
-- 
2.43.0


From 12c8d59e1f0d663ea7e4cb69d5b9174501aeaf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 02/29] fix: tolerate short and interrupted reads when reading
 section headers

---
 src/reader.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1f63572..572686f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -206,6 +206,23 @@ impl<R: Read> Read for SeekableGrib2Reader<R> {
     }
 }
 
+impl<R: Read> SeekableGrib2Reader<R> {
+    // Unlike a single `read()`, which may be short or interrupted at any time,
+    // returns fewer octets than requested only at the end of the data.
+    fn read_until_full(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let mut size = 0;
+        while size < buf.len() {
+            match self.reader.read(&mut buf[size..]) {
+                Ok(0) => break,
+                Ok(n) => size += n,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                Err(e) => return Err(e),
+            }
+        }
+        Ok(size)
+    }
+}
+
 impl<S: Seek> Seek for SeekableGrib2Reader<S> {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         self.reader.seek(pos)
@@ -233,7 +250,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         let mut offset = 0;
 
         loop {
-            let size = self.read(&mut buf[..])?;
+            let size = self.read_until_full(&mut buf[..])?;
             if size < SECT0_IS_SIZE {
                 return Ok(None);
             }
@@ -256,7 +273,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect8(&mut self) -> Result<Option<()>, ParseError> {
         let mut buf = [0; SECT8_ES_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = self.read_until_full(&mut buf[..])?;
         check_size!(size, buf.len());
 
         if buf[..] != SECT8_ES_MAGIC[..] {
@@ -268,7 +285,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_header(&mut self) -> Result<Option<SectHeader>, ParseError> {
         let mut buf = [0; SECT_HEADER_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = self.read_until_full(&mut buf[..])?;
         check_size!(size, buf.len());
 
         let sect_size = read_as!(u32, buf, 0) as usize;
-- 
2.43.0


From 493beb90f4b00da145fdaf175d9e4f8470094dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 03/29] fix: reject impossible message and section lengths and
 do not allocate them in advance

---
 src/reader.rs | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 572686f..0d7ee3d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -90,11 +90,19 @@ where
             .reader
             .read_sect0()
             .transpose()?
-            .map(|(offset, indicator)| {
-                self.whole_size += offset;
-                let offset = self.whole_size;
+            .and_then(|(offset, indicator)| {
                 let message_size = indicator.total_length as usize;
-                self.whole_size += message_size;
+                let offset = self.whole_size + offset;
+                let end = offset.checked_add(message_size);
+                let end = match end {
+                    Some(end) if message_size >= SECT0_IS_SIZE => end,
+                    _ => {
+                        return Err(ParseError::ReadError(format!(
+                            "invalid message length: {message_size}"
+                        )))
+                    }
+                };
+                self.whole_size = end;
                 let sect_info = SectionInfo {
                     num: 0,
                     offset,
@@ -102,7 +110,7 @@ where
                     body: Some(SectionBody::Section0(indicator)),
                 };
                 self.rest_size = message_size - SECT0_IS_SIZE;
-                sect_info
+                Ok(sect_info)
             });
         Some(result)
     }
@@ -132,6 +140,9 @@ where
     fn next_sect(&mut self) -> Option<Result<SectionInfo, ParseError>> {
         let result = self.reader.read_sect_header().transpose()?;
         match result {
+            Ok((size, _)) if size < SECT_HEADER_SIZE || size > self.rest_size => Some(Err(
+                ParseError::ReadError(format!("invalid section length: {size}")),
+            )),
             Ok(header) => {
                 let offset = self.whole_size - self.rest_size;
                 match self.reader.read_sect_payload(&header) {
@@ -326,20 +337,21 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         self.seek(SeekFrom::Start(body_offset as u64))?;
 
         let body_size = sect.size - SECT_HEADER_SIZE;
-        let mut buf = vec![0; body_size];
-        self.read_exact(buf.as_mut_slice())?;
-
-        Ok(buf.into_boxed_slice())
+        self.read_slice_without_offset_check(body_size)
     }
 
     fn read_sect6_payload(&mut self, body_size: usize) -> Result<SectionBody, ParseError> {
         let mut buf = [0; 1]; // octet 6
+        if body_size < buf.len() {
+            return Err(ParseError::ReadError(
+                "section 6 is too short".to_owned(),
+            ));
+        }
         self.read_exact(&mut buf[..])?;
 
         let len_extra = body_size - buf.len();
         if len_extra > 0 {
-            let mut buf = vec![0; len_extra];
-            self.read_exact(&mut buf[..])?;
+            self.read_slice_without_offset_check(len_extra)?;
         }
 
         Ok(SectionBody::Section6(BitMap {
@@ -354,8 +366,17 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
     }
 
     fn read_slice_without_offset_check(&mut self, size: usize) -> Result<Box<[u8]>, ParseError> {
-        let mut buf = vec![0; size];
-        self.read_exact(&mut buf[..])?;
+        // `size` comes from the data and can be far larger than what is actually there,
+        // so do not allocate that much in advance.
+        let mut buf = Vec::new();
+        self.by_ref().take(size as u64).read_to_end(&mut buf)?;
+        if buf.len() != size {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "failed to fill whole buffer",
+            )
+            .into());
+        }
         Ok(buf.into_boxed_slice())
     }
 }
-- 
2.43.0


From 7427993275193f407aff198a271a481b98d3e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 04/29] fix: make SubmessageIterator::nth() relative to the
 current position

---
 src/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index de57476..801bdc5 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -327,12 +327,12 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.context.submessages.len() - self.pos;
+        let size = self.context.submessages.len().saturating_sub(self.pos);
         (size, Some(size))
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.pos = n;
+        self.pos = self.pos.saturating_add(n);
         self.next()
     }
 }
-- 
2.43.0


From 4fd0b910b0292e73d7f777de820c71d51fa5a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 05/29] fix: count decoded values so that the value iterator
 ends at the number of points

---
 src/decoder/bitmap.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/decoder/bitmap.rs b/src/decoder/bitmap.rs
index 23eeff5..eb69f41 100644
--- a/src/decoder/bitmap.rs
+++ b/src/decoder/bitmap.rs
@@ -35,17 +35,16 @@ where
     type Item = f32;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let offset = self.offset;
-        if offset >= self.len {
+        if self.offset >= self.len {
             return None;
         }
-        let byte = if self.offset < 7 {
-            self.offset += 1;
+        let offset = self.offset % 8;
+        let byte = if offset < 7 {
             self.bitmap.peek()?
         } else {
-            self.offset = 0;
             self.bitmap.next()?
         };
+        self.offset += 1;
 
         if has_zero_at_offset(byte, &offset) {
             Some(f32::NAN)
-- 
2.43.0


From 3dbb05ff85a301c52d248f23c79abdddd362c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 06/29] fix: do not overflow or over-allocate on run-length
 packed data out of range

---
 src/decoder/run_length.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 33888c1..1ef16ab 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -16,10 +16,16 @@ pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<std::vec::IntoIter<f32>, GribError> {
     let sect5_data = &target.sect5_payload;
+    if sect5_data.len() < 12 {
+        return Err(DecodeError::LengthMismatch.into());
+    }
     let nbit = read_as!(u8, sect5_data, 6);
     let maxv = read_as!(u16, sect5_data, 7);
     let max_level = read_as!(u16, sect5_data, 9);
     let num_digits = read_as!(u8, sect5_data, 11);
+    if sect5_data.len() < 12 + usize::from(max_level) * std::mem::size_of::<u16>() {
+        return Err(DecodeError::LengthMismatch.into());
+    }
 
     let mut level_map = Vec::with_capacity(max_level.into());
     level_map.push(f32::NAN);
@@ -63,28 +69,36 @@ fn rleunpack(
     maxv: u16,
     expected_len: Option<usize>,
 ) -> Result<Box<[u16]>, RunLengthEncodingDecodeError> {
+    if nbit == 0 || nbit > 16 {
+        return Err(RunLengthEncodingDecodeError::NotSupported);
+    }
     let mut out_buf = match expected_len {
         Some(sz) => Vec::with_capacity(sz),
         None => Vec::new(),
     };
 
-    let rlbase = maxv + 1;
-    let lngu: usize = ((1u16 << nbit) - rlbase).into();
+    let rlbase = u32::from(maxv) + 1;
+    let lngu = (1u32 << nbit)
+        .checked_sub(rlbase)
+        .ok_or(RunLengthEncodingDecodeError::NotSupported)? as usize;
     let mut cached = None;
     let mut exp: usize = 1;
     let iter = NBitwiseIterator::new(input, usize::from(nbit));
 
     for value in iter {
-        let value = value as u16;
         if rlbase > value {
+            let value = value as u16;
             out_buf.push(value);
             cached = Some(value);
             exp = 1;
         } else {
             let prev = cached.ok_or(RunLengthEncodingDecodeError::InvalidFirstValue)?;
-            let length: usize = ((value - rlbase) as usize) * exp;
+            let length: usize = ((value - rlbase) as usize).saturating_mul(exp);
+            if expected_len.is_some_and(|len| length > len.saturating_sub(out_buf.len())) {
+                return Err(RunLengthEncodingDecodeError::LengthMismatch);
+            }
             out_buf.append(&mut vec![prev; length]);
-            exp *= lngu;
+            exp = exp.saturating_mul(lngu);
         }
     }
 
-- 
2.43.0


From 304c85ec65343902788cf7e2b19488f0931e6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 07/29] fix: ignore padding bits at the end of run-length
 packed data

---
 src/decoder/run_length.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 1ef16ab..6ddba22 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -83,9 +83,18 @@ fn rleunpack(
         .ok_or(RunLengthEncodingDecodeError::NotSupported)? as usize;
     let mut cached = None;
     let mut exp: usize = 1;
-    let iter = NBitwiseIterator::new(input, usize::from(nbit));
+    let mut iter = NBitwiseIterator::new(input, usize::from(nbit));
 
-    for value in iter {
+    loop {
+        // the last octet is padded if `nbit` does not divide it
+        let is_padding_possible = iter.pos + 1 == input.len() && iter.offset > 0;
+        if is_padding_possible && expected_len == Some(out_buf.len()) {
+            break;
+        }
+        let value = match iter.next() {
+            Some(value) => value,
+            None => break,
+        };
         if rlbase > value {
             let value = value as u16;
             out_buf.push(value);
-- 
2.43.0


From 264977e97e2dd90b4dab76fcad22967d90d0f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 08/29] fix: do not require an image in PNG packed data of a
 constant field

---
 src/decoder/png.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 3ed7a36..56b705e 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -19,12 +19,6 @@ pub(crate) fn decode(
     let sect5_data = &target.sect5_payload;
     let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
 
-    let buf = read_image_buffer(&target.sect7_payload).map_err(|e| {
-        GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
-            e.to_string(),
-        )))
-    })?;
-
     if param.nbit == 0 {
         eprintln!(
             "WARNING: nbit = 0 for PNG decoder is not tested.
@@ -37,6 +31,12 @@ pub(crate) fn decode(
         return Ok(decoder);
     };
 
+    let buf = read_image_buffer(&target.sect7_payload).map_err(|e| {
+        GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
+            e.to_string(),
+        )))
+    })?;
+
     if param.nbit != 16 {
         eprintln!(
             "WARNING: nbit != 16 for PNG decoder is not tested.
-- 
2.43.0


From bf6f42e9ba00fbffb6b3ab4d645c85c185b68979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 09/29] fix: check the length of Section 5 and the number of
 encoded points before decoding

---
 src/decoder.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5ece124..084c086 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -93,6 +93,9 @@ impl Grib2SubmessageDecoder {
             _ => return Err(GribError::InternalDataError),
         };
         let sect3_num_points = sect3_body.num_points() as usize;
+        if sect5_body.num_points() as usize > sect3_num_points {
+            return Err(DecodeError::LengthMismatch.into());
+        }
 
         let bitmap = match sect6_body.bitmap_indicator {
             0x00 => {
@@ -124,6 +127,16 @@ impl Grib2SubmessageDecoder {
     pub fn dispatch(
         &self,
     ) -> Result<Grib2DecodedValues<impl Iterator<Item = f32> + '_>, GribError> {
+        let sect5_min_len = match self.template_num {
+            0 | 40 | 41 => 16,
+            2 => 42,
+            3 => 44,
+            _ => 0,
+        };
+        if self.sect5_payload.len() < sect5_min_len {
+            return Err(DecodeError::LengthMismatch.into());
+        }
+
         let decoder = match self.template_num {
             0 => Grib2ValueIterator::Template0(simple::decode(self)?),
             2 => Grib2ValueIterator::Template2(complex::decode_7_2(self)?),
-- 
2.43.0


From 5423bc8de23bb71499fec1c81895b69f28ba4cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 10/29] fix: refuse PNG images whose size does not match the
 number of points

---
 src/decoder/png.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 56b705e..2b71a15 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -31,11 +31,12 @@ pub(crate) fn decode(
         return Ok(decoder);
     };
 
-    let buf = read_image_buffer(&target.sect7_payload).map_err(|e| {
-        GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
-            e.to_string(),
-        )))
-    })?;
+    let buf =
+        read_image_buffer(&target.sect7_payload, target.num_points_encoded).map_err(|e| {
+            GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
+                e.to_string(),
+            )))
+        })?;
 
     if param.nbit != 16 {
         eprintln!(
@@ -50,10 +51,14 @@ pub(crate) fn decode(
     Ok(iter)
 }
 
-fn read_image_buffer(buf: &[u8]) -> Result<Vec<u8>, png::DecodingError> {
+fn read_image_buffer(buf: &[u8], num_points: usize) -> Result<Vec<u8>, png::DecodingError> {
     let reader = std::io::Cursor::new(&buf);
     let decoder = png::Decoder::new(reader);
     let mut reader = decoder.read_info()?;
+    let (width, height) = reader.info().size();
+    if width as u64 * height as u64 != num_points as u64 {
+        return Err(png::DecodingError::LimitsExceeded);
+    }
     let mut out_buf = vec![0; reader.output_buffer_size()];
     let _info = reader.next_frame(&mut out_buf)?;
     Ok(out_buf)
-- 
2.43.0


From 5a9f23b777446f79af4a6e207068d6a51658a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 11/29] fix: end JPEG 2000 streams properly and decode only
 images of the expected size

---
 src/decoder/jpeg2000.rs     | 35 +++++++++++++++++++----------------
 src/decoder/jpeg2000/ext.rs | 27 ++++-----------------------
 2 files changed, 23 insertions(+), 39 deletions(-)

diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index e6c1cf6..eb4dafa 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -40,14 +40,17 @@ pub(crate) fn decode(
 
     let stream = Stream::from_bytes(&target.sect7_payload)
         .map_err(|e| GribError::DecodeError(DecodeError::Jpeg2000CodeStreamDecodeError(e)))?;
-    let jp2_unpacked = decode_jp2(stream)
+    let jp2_unpacked = decode_jp2(stream, target.num_points_encoded)
         .map_err(|e| GribError::DecodeError(DecodeError::Jpeg2000CodeStreamDecodeError(e)))?;
     let decoder = SimplePackingDecodeIterator::new(jp2_unpacked, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
     Ok(decoder)
 }
 
-fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeStreamDecodeError> {
+fn decode_jp2(
+    stream: Stream,
+    num_points: usize,
+) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeStreamDecodeError> {
     let codec = Codec::j2k()?;
 
     let mut decode_params = unsafe { std::mem::zeroed::<opj::opj_dparameters>() };
@@ -63,6 +66,12 @@ fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeS
         return Err(Jpeg2000CodeStreamDecodeError::MainHeaderReadError);
     }
 
+    match image.components() {
+        [comp] if comp.w as usize * comp.h as usize == num_points => {}
+        [_] => return Err(Jpeg2000CodeStreamDecodeError::LengthMismatch),
+        _ => return Err(Jpeg2000CodeStreamDecodeError::NotSupported),
+    }
+
     if unsafe { opj::opj_decode(codec.0.as_ptr(), stream.0, image.0) } != 1 {
         return Err(Jpeg2000CodeStreamDecodeError::BodyReadError);
     }
@@ -70,19 +79,13 @@ fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeS
     drop(codec);
     drop(stream);
 
-    let width = image.width();
-    let height = image.height();
-    let factor = image.factor();
-
-    let width = value_for_discard_level(width, factor);
-    let height = value_for_discard_level(height, factor);
-
-    if let [comp_gray] = image.components() {
-        let vec = unsafe {
-            std::slice::from_raw_parts(comp_gray.data, (width * height) as usize).to_vec()
-        };
-        Ok(vec.into_iter())
-    } else {
-        Err(Jpeg2000CodeStreamDecodeError::NotSupported)
+    match image.components() {
+        [comp_gray] if !comp_gray.data.is_null() => {
+            let size = comp_gray.w as usize * comp_gray.h as usize;
+            let vec = unsafe { std::slice::from_raw_parts(comp_gray.data, size).to_vec() };
+            Ok(vec.into_iter())
+        }
+        [_] => Err(Jpeg2000CodeStreamDecodeError::BodyReadError),
+        _ => Err(Jpeg2000CodeStreamDecodeError::NotSupported),
     }
 }
diff --git a/src/decoder/jpeg2000/ext.rs b/src/decoder/jpeg2000/ext.rs
index 9b71972..c1a1b29 100644
--- a/src/decoder/jpeg2000/ext.rs
+++ b/src/decoder/jpeg2000/ext.rs
@@ -61,6 +61,10 @@ impl Stream {
             let offset = (*user_data).offset;
 
             let bytes_left = len - offset;
+            if bytes_left == 0 {
+                // -1 means the end of the stream
+                return usize::MAX;
+            }
 
             let bytes_read = std::cmp::min(bytes_left, p_nb_bytes);
 
@@ -130,14 +134,6 @@ impl Image {
         Image(ptr::null_mut())
     }
 
-    pub(crate) fn width(&self) -> u32 {
-        unsafe { (*self.0).x1 - (*self.0).x0 }
-    }
-
-    pub(crate) fn height(&self) -> u32 {
-        unsafe { (*self.0).y1 - (*self.0).y0 }
-    }
-
     pub(crate) fn num_components(&self) -> u32 {
         unsafe { (*self.0).numcomps }
     }
@@ -146,19 +142,4 @@ impl Image {
         let comps_len = self.num_components();
         unsafe { std::slice::from_raw_parts((*self.0).comps, comps_len as usize) }
     }
-
-    pub(crate) fn factor(&self) -> u32 {
-        unsafe { (*(*self.0).comps).factor }
-    }
-}
-
-pub(crate) fn value_for_discard_level(u: u32, discard_level: u32) -> u32 {
-    let div = 1 << discard_level;
-    let quot = u / div;
-    let rem = u % div;
-    if rem > 0 {
-        quot + 1
-    } else {
-        quot
-    }
 }
-- 
2.43.0


From a42a0bfd68db2b5ef4089f5a910c71e48f630ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 12/29] fix: refuse complex packed data whose parameters do not
 fit the data

---
 src/decoder/complex.rs      | 89 +++++++++++++++++++++++++------------
 src/decoder/complex/diff.rs | 19 +++++---
 2 files changed, 73 insertions(+), 35 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 34d09eb..9688742 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -47,7 +47,14 @@ pub(crate) fn decode_7_2(
 
     let sect7_data = &target.sect7_payload;
 
-    let unpacked_data = decode_complex_packing(complex_param, sect7_data, 0, simple_param.nbit, 0);
+    let unpacked_data = decode_complex_packing(
+        complex_param,
+        sect7_data,
+        0,
+        simple_param.nbit,
+        0,
+        target.num_points_encoded,
+    )?;
     let decoder = SimplePackingDecodeIterator::new(unpacked_data, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
     Ok(decoder)
@@ -91,7 +98,8 @@ pub(crate) fn decode_7_3(
         sect7_params.len(),
         simple_param.nbit,
         sect7_params.minimum(),
-    );
+        target.num_points_encoded,
+    )?;
     let first_values = sect7_params.first_values();
     let first_values = first_values.collect::<Vec<_>>().into_iter();
     let spdiff_unpacked = match spdiff_order {
@@ -114,11 +122,17 @@ fn decode_complex_packing(
     sect7_offset: usize,
     nbit: u8,
     z_min: i32,
-) -> impl Iterator<Item = DecodedValue<i32>> + '_ {
+    num_points: usize,
+) -> Result<impl Iterator<Item = DecodedValue<i32>> + '_, GribError> {
     fn get_octet_length(nbit: u8, ngroup: u32) -> usize {
-        let total_bit: u32 = ngroup * u32::from(nbit);
-        let total_octet = (total_bit + 0b111) >> 3;
-        total_octet as usize
+        let total_bit: usize = ngroup as usize * usize::from(nbit);
+        (total_bit + 0b111) >> 3
+    }
+
+    if nbit > 31 {
+        return Err(GribError::DecodeError(
+            DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::NotSupported),
+        ));
     }
 
     let params_end_octet = sect7_offset;
@@ -127,6 +141,11 @@ fn decode_complex_packing(
         + get_octet_length(complex_param.group_width_nbit, complex_param.ngroup);
     let group_lens_end_octet = group_widths_end_octet
         + get_octet_length(complex_param.group_len_nbit, complex_param.ngroup);
+    if group_lens_end_octet > sect7_data.len() {
+        return Err(GribError::DecodeError(
+            DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::LengthMismatch),
+        ));
+    }
 
     let group_refs_iter = BitStream::new(
         &sect7_data[params_end_octet..group_refs_end_octet],
@@ -142,19 +161,23 @@ fn decode_complex_packing(
     );
     let group_widths_iter = group_widths_iter
         .take(complex_param.ngroup as usize)
-        .map(move |v| u32::from(complex_param.group_width_ref) + v);
+        .map(move |v| u32::from(complex_param.group_width_ref).saturating_add(v));
 
     let group_lens_iter = BitStream::new(
         &sect7_data[group_widths_end_octet..group_lens_end_octet],
         usize::from(complex_param.group_len_nbit),
-        (complex_param.ngroup - 1) as usize,
+        complex_param.ngroup.saturating_sub(1) as usize,
     );
     let group_lens_iter = group_lens_iter
-        .take((complex_param.ngroup - 1) as usize)
-        .map(move |v| complex_param.group_len_ref + u32::from(complex_param.group_len_inc) * v)
+        .take(complex_param.ngroup.saturating_sub(1) as usize)
+        .map(move |v| {
+            u32::from(complex_param.group_len_inc)
+                .saturating_mul(v)
+                .saturating_add(complex_param.group_len_ref)
+        })
         .chain(iter::once(complex_param.group_len_last));
 
-    ComplexPackingValueDecodeIterator::new(
+    let values = ComplexPackingValueDecodeIterator::new(
         group_refs_iter,
         group_widths_iter,
         group_lens_iter,
@@ -162,8 +185,10 @@ fn decode_complex_packing(
         nbit,
         z_min,
         sect7_data[group_lens_end_octet..].to_vec(),
+        num_points,
     )
-    .flatten()
+    .flatten();
+    Ok(values)
 }
 
 #[derive(Clone)]
@@ -175,6 +200,7 @@ struct ComplexPackingValueDecodeIterator<I, J, K> {
     nbit: u8,
     z_min: i32,
     data: Vec<u8>,
+    num_points_left: usize,
     pos: usize,
     start_offset_bits: usize,
 }
@@ -188,6 +214,7 @@ impl<I, J, K> ComplexPackingValueDecodeIterator<I, J, K> {
         nbit: u8,
         z_min: i32,
         data: Vec<u8>,
+        num_points: usize,
     ) -> Self {
         Self {
             ref_iter,
@@ -197,6 +224,7 @@ impl<I, J, K> ComplexPackingValueDecodeIterator<I, J, K> {
             nbit,
             z_min,
             data,
+            num_points_left: num_points,
             pos: 0,
             start_offset_bits: 0,
         }
@@ -225,7 +253,8 @@ where
                 // associated field width is 0, and no incremental data are physically present."
                 let _ref = _ref.to_i32().unwrap();
                 let length = length.to_usize().unwrap();
-                let missing1 = (1 << self.nbit) - 1;
+                self.num_points_left = self.num_points_left.checked_sub(length)?;
+                let missing1 = i32::MAX >> (31 - self.nbit);
                 let missing2 = missing1 - 1;
 
                 if self.missing_value_management > 0 && _ref == missing1 {
@@ -233,7 +262,7 @@ where
                 } else if self.missing_value_management == 2 && _ref == missing2 {
                     Some(vec![Missing2; length])
                 } else {
-                    Some(vec![Normal(_ref + self.z_min); length])
+                    Some(vec![Normal(_ref.wrapping_add(self.z_min)); length])
                 }
             }
             (Some(_ref), Some(width), Some(length)) => {
@@ -242,25 +271,29 @@ where
                     width.to_usize().unwrap(),
                     length.to_usize().unwrap(),
                 );
+                self.num_points_left = self.num_points_left.checked_sub(length)?;
+                if width > 31 {
+                    return None;
+                }
                 let bits = self.start_offset_bits + width * length;
                 let (pos_end, offset_bits) = (self.pos + bits / 8, bits % 8);
                 let offset_byte = usize::from(offset_bits > 0);
                 let missing1 = (1 << width) - 1;
                 let missing2 = missing1 - 1;
-                let group_values =
-                    NBitwiseIterator::new(&self.data[self.pos..pos_end + offset_byte], width)
-                        .with_offset(self.start_offset_bits)
-                        .take(length)
-                        .map(|v| {
-                            if self.missing_value_management > 0 && v == missing1 {
-                                Missing1
-                            } else if self.missing_value_management == 2 && v == missing2 {
-                                Missing2
-                            } else {
-                                Normal(v.as_grib_int() + _ref + self.z_min)
-                            }
-                        })
-                        .collect::<Vec<_>>();
+                let group_data = self.data.get(self.pos..pos_end + offset_byte)?;
+                let group_values = NBitwiseIterator::new(group_data, width)
+                    .with_offset(self.start_offset_bits)
+                    .take(length)
+                    .map(|v| {
+                        if self.missing_value_management > 0 && v == missing1 {
+                            Missing1
+                        } else if self.missing_value_management == 2 && v == missing2 {
+                            Missing2
+                        } else {
+                            Normal(v.as_grib_int().wrapping_add(_ref).wrapping_add(self.z_min))
+                        }
+                    })
+                    .collect::<Vec<_>>();
                 self.pos = pos_end;
                 self.start_offset_bits = offset_bits;
                 Some(group_values)
diff --git a/src/decoder/complex/diff.rs b/src/decoder/complex/diff.rs
index b7c94c3..282a104 100644
--- a/src/decoder/complex/diff.rs
+++ b/src/decoder/complex/diff.rs
@@ -22,11 +22,14 @@ impl<'a> SpatialDifferencingExtraDescriptors<'a> {
         }
         let num_octets = usize::from(num_octets);
         let byte_length = usize::from(spdiff_order + 1) * num_octets;
-
-        Ok(Self {
-            slice: &parent_slice[..byte_length],
-            num_octets,
-        })
+        let slice =
+            parent_slice
+                .get(..byte_length)
+                .ok_or(DecodeError::ComplexPackingDecodeError(
+                    ComplexPackingDecodeError::LengthMismatch,
+                ))?;
+
+        Ok(Self { slice, num_octets })
     }
 
     // total number of octets for descriptors
@@ -134,7 +137,7 @@ where
                     Some(Normal(self.prev))
                 }
                 _ => {
-                    let v = v + self.prev;
+                    let v = v.wrapping_add(self.prev);
                     self.prev = v;
                     Some(Normal(v))
                 }
@@ -186,7 +189,9 @@ where
                     Some(Normal(self.prev1))
                 }
                 _ => {
-                    let v = v + 2 * self.prev1 - self.prev2;
+                    let v = v
+                        .wrapping_add(self.prev1.wrapping_mul(2))
+                        .wrapping_sub(self.prev2);
                     self.prev2 = self.prev1;
                     self.prev1 = v;
                     Some(Normal(v))
-- 
2.43.0


From 47a2d573ee498273cf3e23f7db0ae36f4a2afbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 13/29] fix: do not panic on product definitions shorter than
 their template

---
 src/datatypes/sections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 242550d..981d9b2 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -437,7 +437,7 @@ impl ProdDefinition {
             let unit = self.payload.get(unit_index).copied();
             let start = unit_index + 1;
             let end = unit_index + 5;
-            let time = u32::from_be_bytes(self.payload[start..end].try_into().unwrap());
+            let time = u32::from_be_bytes(self.payload.get(start..end)?.try_into().unwrap());
             unit.map(|v| ForecastTime::from_numbers(v, time))
         } else {
             None
@@ -488,7 +488,7 @@ impl ProdDefinition {
         let start = index + 2;
         let end = index + 6;
         let scaled_value =
-            u32::from_be_bytes(self.payload[start..end].try_into().unwrap()).as_grib_int();
+            u32::from_be_bytes(self.payload.get(start..end)?.try_into().unwrap()).as_grib_int();
         surface_type
             .zip(scale_factor)
             .map(|(stype, factor)| FixedSurface::new(stype, factor, scaled_value))
-- 
2.43.0


From 18cb02ddf6e41e53c6c8f0317483174a096bfcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 14/29] fix: do not panic on grid definitions shorter than
 their template

---
 src/datatypes/sections.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 981d9b2..5a61449 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -266,6 +266,18 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
 
     fn try_from(value: &GridDefinition) -> Result<Self, Self::Error> {
         let num = value.grid_tmpl_num();
+        let min_len = match num {
+            0 | 40 => 67,
+            20 => 60,
+            30 => 68,
+            _ => 0,
+        };
+        if value.payload.len() < min_len {
+            return Err(GribError::InvalidValueError(format!(
+                "Section 3 is too short for template {num}"
+            )));
+        }
+
         match num {
             0 => {
                 let buf = &value.payload;
-- 
2.43.0


From 6af49b2700c94ea098fe47a65a262890835195ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 15/29] fix: do not overflow or allocate on grids with no
 points or inconsistent sizes

---
 src/context.rs       | 7 ++++---
 src/grid.rs          | 2 +-
 src/grid/gaussian.rs | 5 ++++-
 src/grid/helpers.rs  | 2 +-
 src/grid/latlon.rs   | 5 ++++-
 5 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 801bdc5..e9003f3 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -670,10 +670,11 @@ Data Representation:                    {}
     pub fn latlons(&self) -> Result<GridPointIterator, GribError> {
         let grid_def = self.grid_def();
         let num_defined = grid_def.num_points() as usize;
-        let latlons = GridDefinitionTemplateValues::try_from(grid_def)?.latlons()?;
-        let (num_decoded, _) = latlons.size_hint();
+        let grid_def_values = GridDefinitionTemplateValues::try_from(grid_def)?;
+        let (ni, nj) = grid_def_values.grid_shape();
+        let num_decoded = ni * nj;
         if num_defined == num_decoded {
-            Ok(latlons)
+            grid_def_values.latlons()
         } else {
             Err(GribError::InvalidValueError(format!(
                 "number of grid points does not match: {num_defined} (defined) vs {num_decoded} (decoded)"
diff --git a/src/grid.rs b/src/grid.rs
index c77eea0..1adc545 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -78,7 +78,7 @@ impl Iterator for GridPointIndexIterator {
     type Item = (usize, usize);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.major_pos == self.major_len {
+        if self.major_pos == self.major_len || self.minor_len == 0 {
             return None;
         }
 
diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 9a439d6..7e130f9 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -65,6 +65,9 @@ impl GaussianGridDefinition {
         }
 
         let ij = self.ij()?;
+        if self.ni == 0 || self.nj == 0 {
+            return Ok(RegularGridIterator::new(Vec::new(), Vec::new(), ij));
+        }
         let mut lat = compute_gaussian_latitudes_in_degrees(self.nj as usize)
             .map_err(|e| GribError::Unknown(e.to_owned()))?;
         if self.scanning_mode.scans_positively_for_j() {
@@ -83,7 +86,7 @@ impl GaussianGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
+        let lat_diff = i64::from(self.last_point_lat) - i64::from(self.first_point_lat);
         !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
     }
 
diff --git a/src/grid/helpers.rs b/src/grid/helpers.rs
index 1ec1d55..af7cdc8 100644
--- a/src/grid/helpers.rs
+++ b/src/grid/helpers.rs
@@ -11,7 +11,7 @@ pub(crate) fn evenly_spaced_longitudes(
     div: usize,
     scanning_mode: ScanningMode,
 ) -> Vec<f32> {
-    let diff = end_microdegree - start_microdegree;
+    let diff = i64::from(end_microdegree) - i64::from(start_microdegree);
     let is_consistent = !((diff > 0) ^ scanning_mode.scans_positively_for_i());
 
     let (start, end) = (start_microdegree as f32, end_microdegree as f32);
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index ca60a1e..7f97569 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -119,6 +119,9 @@ impl LatLonGridDefinition {
         }
 
         let ij = self.ij()?;
+        if self.ni == 0 || self.nj == 0 {
+            return Ok(RegularGridIterator::new(Vec::new(), Vec::new(), ij));
+        }
         let lat = evenly_spaced_degrees(
             self.first_point_lat as f32,
             self.last_point_lat as f32,
@@ -136,7 +139,7 @@ impl LatLonGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
+        let lat_diff = i64::from(self.last_point_lat) - i64::from(self.first_point_lat);
         !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
     }
 
-- 
2.43.0


From 1ddb62cc4a0ab533c5914adab6e38276966993c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 16/29] fix: compute coordinates of grids with a single row or
 column

---
 src/grid/gaussian.rs | 3 ++-
 src/grid/helpers.rs  | 5 +++--
 src/grid/latlon.rs   | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 7e130f9..92e20e0 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -87,7 +87,8 @@ impl GaussianGridDefinition {
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
         let lat_diff = i64::from(self.last_point_lat) - i64::from(self.first_point_lat);
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        (self.nj == 1 && lat_diff == 0)
+            || !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
diff --git a/src/grid/helpers.rs b/src/grid/helpers.rs
index af7cdc8..b9a4249 100644
--- a/src/grid/helpers.rs
+++ b/src/grid/helpers.rs
@@ -12,7 +12,7 @@ pub(crate) fn evenly_spaced_longitudes(
     scanning_mode: ScanningMode,
 ) -> Vec<f32> {
     let diff = i64::from(end_microdegree) - i64::from(start_microdegree);
-    let is_consistent = !((diff > 0) ^ scanning_mode.scans_positively_for_i());
+    let is_consistent = div == 0 || !((diff > 0) ^ scanning_mode.scans_positively_for_i());
 
     let (start, end) = (start_microdegree as f32, end_microdegree as f32);
     let (start, end) = if is_consistent {
@@ -39,7 +39,8 @@ pub(crate) fn evenly_spaced_degrees(
     end_microdegree: f32,
     div: usize,
 ) -> Vec<f32> {
-    let delta = (end_microdegree - start_microdegree) / div as f32;
+    // a single point if `div` is 0
+    let delta = (end_microdegree - start_microdegree) / div.max(1) as f32;
     (0..=div)
         .map(move |x| (start_microdegree + x as f32 * delta) / 1_000_000_f32)
         .collect()
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index 7f97569..4210079 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -140,7 +140,8 @@ impl LatLonGridDefinition {
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
         let lat_diff = i64::from(self.last_point_lat) - i64::from(self.first_point_lat);
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        (self.nj == 1 && lat_diff == 0)
+            || !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
-- 
2.43.0


From 55785c618683c738f60c7d475f6cb2f5cd043e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 17/29] fix: do not overflow on Gaussian grids with many
 parallels

---
 src/grid/gaussian.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 92e20e0..d89f7f4 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -159,7 +159,8 @@ pub fn compute_gaussian_latitudes(div: usize) -> impl Iterator<Item = Option<f64
 //   Gauss-Legendre quadrature, Journal of Computational and Applied Mathematics,
 //   Volume 59, Issue 2, 1995, Pages 245-252, ISSN 0377-0427, https://doi.org/10.1016/0377-0427(94)00030-5.
 fn legendre_roots_iterator(n: usize) -> impl Iterator<Item = Option<f64>> {
-    let coeff = 1.0_f64 - 1.0 / (8 * n * n) as f64 + 1.0 / (8 * n * n * n) as f64;
+    let nf = n as f64;
+    let coeff = 1.0_f64 - 1.0 / (8.0 * nf * nf) + 1.0 / (8.0 * nf * nf * nf);
     (0..n).map(move |i| {
         let guess = coeff * ((4 * i + 3) as f64 * std::f64::consts::PI / (4 * n + 2) as f64).cos();
         find_root(guess, |x| {
-- 
2.43.0


From 1aa900a6f03f46ea5c7d3ef5aba36d6800c5baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 18/29] fix: refuse complex packed data with more groups than
 values

---
 src/decoder/complex.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 9688742..03fc503 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -135,6 +135,13 @@ fn decode_complex_packing(
         ));
     }
 
+    // Every group contains at least one value.
+    if complex_param.ngroup as usize > num_points {
+        return Err(GribError::DecodeError(
+            DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::LengthMismatch),
+        ));
+    }
+
     let params_end_octet = sect7_offset;
     let group_refs_end_octet = params_end_octet + get_octet_length(nbit, complex_param.ngroup);
     let group_widths_end_octet = group_refs_end_octet
-- 
2.43.0


From bb383f4ed9fd005362c17f79e60a796aa2e227aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 19/29] fix: report errors of the last write of an export

---
 cli/src/commands/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/commands/decode.rs b/cli/src/commands/decode.rs
index 5050629..2e743c9 100644
--- a/cli/src/commands/decode.rs
+++ b/cli/src/commands/decode.rs
@@ -37,7 +37,8 @@ fn write_output(
 ) -> Result<()> {
     File::create(out_path).and_then(|f| {
         let mut stream = BufWriter::new(f);
-        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))
+        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))?;
+        stream.flush()
     })?;
     Ok(())
 }
-- 
2.43.0


From 7a53b9b03d0819e9eb0161b5af2b279b830b0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 20/29] fix: do not underflow when listing files with more
 encoded points than grid points

---
 cli/src/commands/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/commands/list.rs b/cli/src/commands/list.rs
index 885d54d..61923b2 100644
--- a/cli/src/commands/list.rs
+++ b/cli/src/commands/list.rs
@@ -123,7 +123,7 @@ impl<R> Display for ListView<'_, R> {
                         forecast_time,
                         surfaces.0,
                         surfaces.1,
-                        num_grid_points - num_points_represented,
+                        num_grid_points.saturating_sub(num_points_represented),
                         num_grid_points,
                         grid_type,
                     )?;
-- 
2.43.0


From f5e79fdee86b9d332fe4775884cd79a3067ccb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 21/29] fix: refuse message indices out of range instead of
 panicking

---
 cli/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/cli.rs b/cli/src/cli.rs
index 74c0517..aac21d9 100644
--- a/cli/src/cli.rs
+++ b/cli/src/cli.rs
@@ -80,9 +80,9 @@ impl std::str::FromStr for CliMessageIndex {
             )
         })?;
         let message_index = cap.get(1).unwrap();
-        let message_index = usize::from_str(message_index.as_str()).unwrap();
+        let message_index = usize::from_str(message_index.as_str())?;
         let submessage_index = cap.get(2).unwrap();
-        let submessage_index = usize::from_str(submessage_index.as_str()).unwrap();
+        let submessage_index = usize::from_str(submessage_index.as_str())?;
         let inner = (message_index, submessage_index);
         Ok(Self(inner))
     }
-- 
2.43.0


From fe6b66e8f9cf33362535477de51dd8c978c16410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 22/29] fix: do not underflow on descending code ranges

---
 gen/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen/src/lib.rs b/gen/src/lib.rs
index a42eb0b..eaf257f 100644
--- a/gen/src/lib.rs
+++ b/gen/src/lib.rs
@@ -51,6 +51,9 @@ impl FromStr for CodeRange {
 
         let pos = read_hyphen(input, pos)?;
         let (end, _pos) = read_number(input, pos)?;
+        if end < start {
+            return Err(CodeRangeParseError::DescendingRange);
+        }
 
         Ok(CodeRange { start, end })
     }
@@ -59,6 +62,7 @@ impl FromStr for CodeRange {
 pub enum CodeRangeParseError {
     NumberNotFound,
     HyphenNotFound,
+    DescendingRange,
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-- 
2.43.0


From aa4e6156cec3a3cff63a361223369cbee6e5861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 23/29] fix: keep all records of a code table whose categories
 are interleaved

---
 gen/src/grib2_codeflag_csv.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gen/src/grib2_codeflag_csv.rs b/gen/src/grib2_codeflag_csv.rs
index 7baecf4..2a627e2 100644
--- a/gen/src/grib2_codeflag_csv.rs
+++ b/gen/src/grib2_codeflag_csv.rs
@@ -78,15 +78,15 @@ impl CodeDB {
             let record: Record = record?;
             let category = record.subtitle.parse::<OptArg>()?;
 
-            let current = out_tables.last();
-            if current.is_none() || category != current.unwrap().0 {
-                let new_codetable = CodeTable::new(record.title);
-                out_tables.push((category, new_codetable));
-            }
+            let pos = match out_tables.iter().position(|(c, _)| *c == category) {
+                Some(pos) => pos,
+                None => {
+                    out_tables.push((category, CodeTable::new(record.title)));
+                    out_tables.len() - 1
+                }
+            };
 
-            out_tables
-                .last_mut()
-                .unwrap()
+            out_tables[pos]
                 .1
                 .data
                 .push((record.code_flag, record.description));
-- 
2.43.0


From 52a008d532724b259aba1bdd67d6d84310aade99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 24/29] fix: accept tables that list a parameter code
 repeatedly

---
 codegen/src/param_codes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen/src/param_codes.rs b/codegen/src/param_codes.rs
index ae6ccbb..d7d5d73 100644
--- a/codegen/src/param_codes.rs
+++ b/codegen/src/param_codes.rs
@@ -1,6 +1,6 @@
 use std::{
     borrow::Cow,
-    collections::{hash_map::Entry, HashMap},
+    collections::{hash_map::Entry, HashMap, HashSet},
     fmt,
     str::FromStr,
 };
@@ -28,7 +28,9 @@ impl Wgrib2Table {
             .lines()
             .map(|line| line.trim_end().parse::<Wgrib2TableEntry>().ok())
             .collect();
-        let codes = lines?;
+        let mut codes = lines?;
+        let mut listed = HashSet::with_capacity(codes.len());
+        codes.retain(|code| listed.insert((code.id(), code.normalized_name())));
 
         let mut table = HashMap::<String, u32>::with_capacity(codes.len());
         let mut remapper = HashMap::<u32, u32>::with_capacity(codes.len() / 10);
-- 
2.43.0


From d058eaeb8b3dd325b83927ccf97e0fd36442a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 25/29] fix: report errors in reading the header of a code
 table

---
 gen/src/cct_csv.rs            | 2 ++
 gen/src/grib2_codeflag_csv.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/gen/src/cct_csv.rs b/gen/src/cct_csv.rs
index 260f76e..19da884 100644
--- a/gen/src/cct_csv.rs
+++ b/gen/src/cct_csv.rs
@@ -80,6 +80,7 @@ impl CodeDB {
     {
         let f = File::open(&path)?;
         let mut reader = csv::Reader::from_reader(f);
+        reader.headers()?; // `deserialize()` does not report errors in reading the header
         let mut codetable = CodeTable::new("Common Code Table C-0".to_owned());
 
         for record in reader.deserialize() {
@@ -96,6 +97,7 @@ impl CodeDB {
     {
         let f = File::open(path)?;
         let mut reader = csv::Reader::from_reader(f);
+        reader.headers()?; // `deserialize()` does not report errors in reading the header
         let mut codetable = CodeTable::new("Common Code Table C-11".to_owned());
 
         for record in reader.deserialize() {
diff --git a/gen/src/grib2_codeflag_csv.rs b/gen/src/grib2_codeflag_csv.rs
index 2a627e2..79bdfe5 100644
--- a/gen/src/grib2_codeflag_csv.rs
+++ b/gen/src/grib2_codeflag_csv.rs
@@ -72,6 +72,7 @@ impl CodeDB {
     {
         let f = File::open(path)?;
         let mut reader = csv::Reader::from_reader(f);
+        reader.headers()?; // `deserialize()` does not report errors in reading the header
         let mut out_tables = Vec::<(OptArg, CodeTable)>::new();
 
         for record in reader.deserialize() {
-- 
2.43.0


From 6c23c518ea857df3ca6dc5191e245d275b2d6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 26/29] fix: read the two-octet forecast time of product
 definition template 4.44

Octets 32-33 hold the forecast time in this template and the first fixed
surface follows in octet 34, which fixed_surfaces() already takes into account.
forecast_time() took four octets, so it mixed the type and the scale factor of
the surface into the time.
---
 src/datatypes/sections.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 5a61449..4c060b0 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -448,8 +448,13 @@ impl ProdDefinition {
             let unit_index = START_OF_PROD_TEMPLATE + unit_index;
             let unit = self.payload.get(unit_index).copied();
             let start = unit_index + 1;
-            let end = unit_index + 5;
-            let time = u32::from_be_bytes(self.payload.get(start..end)?.try_into().unwrap());
+            // only in template 4.44, the forecast time consists of 2 octets
+            let end = start + if self.prod_tmpl_num() == 44 { 2 } else { 4 };
+            let time = self
+                .payload
+                .get(start..end)?
+                .iter()
+                .fold(0, |acc, octet| acc << 8 | u32::from(*octet));
             unit.map(|v| ForecastTime::from_numbers(v, time))
         } else {
             None
-- 
2.43.0


From 7636002a8a15812927586902fb9303641955b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 27/29] fix: divide the radii of the earth by their scale
 factors

---
 src/grid/earth.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/grid/earth.rs b/src/grid/earth.rs
index e526f9b..7177884 100644
--- a/src/grid/earth.rs
+++ b/src/grid/earth.rs
@@ -1,4 +1,4 @@
-use crate::helpers::read_as;
+use crate::helpers::{read_as, GribInt};
 
 #[derive(Debug, PartialEq, Eq)]
 pub struct EarthShapeDefinition {
@@ -16,11 +16,10 @@ impl EarthShapeDefinition {
         let radii = match self.shape_of_the_earth {
             0 => (6367470.0, 6367470.0),
             1 => {
-                let radius = f64::from(self.scaled_value_of_radius_of_spherical_earth)
-                    * f64::powf(
-                        10.,
-                        f64::from(self.scale_factor_of_radius_of_spherical_earth),
-                    );
+                let radius = unscaled(
+                    self.scale_factor_of_radius_of_spherical_earth,
+                    self.scaled_value_of_radius_of_spherical_earth,
+                );
                 (radius, radius)
             }
             2 => (6378160.0, 6356775.0),
@@ -39,10 +38,14 @@ impl EarthShapeDefinition {
     }
 
     fn radii_defined(&self) -> (f64, f64) {
-        let major = f64::from(self.scaled_value_of_earth_major_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_major_axis));
-        let minor = f64::from(self.scaled_value_of_earth_minor_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_minor_axis));
+        let major = unscaled(
+            self.scale_factor_of_earth_major_axis,
+            self.scaled_value_of_earth_major_axis,
+        );
+        let minor = unscaled(
+            self.scale_factor_of_earth_minor_axis,
+            self.scaled_value_of_earth_minor_axis,
+        );
         (major, minor)
     }
 
@@ -66,6 +69,13 @@ impl EarthShapeDefinition {
     }
 }
 
+// The scaled value is the original value times 10 to the power of the scale
+// factor.
+fn unscaled(scale_factor: u8, scaled_value: u32) -> f64 {
+    let scale_factor: i8 = scale_factor.as_grib_int();
+    f64::from(scaled_value) / f64::powf(10., f64::from(scale_factor))
+}
+
 #[cfg(test)]
 mod tests {
     use std::{
-- 
2.43.0


From 9f8e0501f3731629652eadbafd75db1312a81921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 28/29] fix: honour the basic angle and its subdivisions in
 grid definitions

---
 src/grid/gaussian.rs | 13 ++++++++-----
 src/grid/helpers.rs  | 12 ++++++++++++
 src/grid/latlon.rs   | 15 ++++++++++-----
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index d89f7f4..9e85666 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -1,5 +1,5 @@
 use super::{
-    helpers::{evenly_spaced_longitudes, RegularGridIterator},
+    helpers::{evenly_spaced_longitudes, microdegrees, RegularGridIterator},
     GridPointIndexIterator, ScanningMode,
 };
 use crate::{
@@ -94,10 +94,13 @@ impl GaussianGridDefinition {
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
         let ni = read_as!(u32, buf, 0);
         let nj = read_as!(u32, buf, 4);
-        let first_point_lat = read_as!(u32, buf, 16).as_grib_int();
-        let first_point_lon = read_as!(u32, buf, 20).as_grib_int();
-        let last_point_lat = read_as!(u32, buf, 25).as_grib_int();
-        let last_point_lon = read_as!(u32, buf, 29).as_grib_int();
+        let basic_angle = read_as!(u32, buf, 8);
+        let subdivisions = read_as!(u32, buf, 12);
+        let angle = |value| microdegrees(value, basic_angle, subdivisions);
+        let first_point_lat = angle(read_as!(u32, buf, 16).as_grib_int());
+        let first_point_lon = angle(read_as!(u32, buf, 20).as_grib_int());
+        let last_point_lat = angle(read_as!(u32, buf, 25).as_grib_int());
+        let last_point_lon = angle(read_as!(u32, buf, 29).as_grib_int());
         let i_direction_inc = read_as!(u32, buf, 33);
         let n = read_as!(u32, buf, 37);
         let scanning_mode = read_as!(u8, buf, 41);
diff --git a/src/grid/helpers.rs b/src/grid/helpers.rs
index b9a4249..a36d9d4 100644
--- a/src/grid/helpers.rs
+++ b/src/grid/helpers.rs
@@ -5,6 +5,18 @@ use super::ScanningMode;
 #[allow(unused_imports)]
 use crate::{GribError, GridPointIndexIterator};
 
+// Converts an angle of a grid definition into microdegrees. Its unit is the
+// ratio of the basic angle and its subdivisions if they are given.
+pub(crate) fn microdegrees(value: i32, basic_angle: u32, subdivisions: u32) -> i32 {
+    match (basic_angle, subdivisions) {
+        (0 | u32::MAX, _) | (_, 0 | u32::MAX) => value,
+        _ => {
+            let unit = f64::from(basic_angle) * 1_000_000. / f64::from(subdivisions);
+            (f64::from(value) * unit).round() as i32
+        }
+    }
+}
+
 pub(crate) fn evenly_spaced_longitudes(
     start_microdegree: i32,
     end_microdegree: i32,
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index 4210079..65ada86 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -1,5 +1,7 @@
 use super::{
-    helpers::{evenly_spaced_degrees, evenly_spaced_longitudes, RegularGridIterator},
+    helpers::{
+        evenly_spaced_degrees, evenly_spaced_longitudes, microdegrees, RegularGridIterator,
+    },
     GridPointIndexIterator, ScanningMode,
 };
 use crate::{
@@ -147,10 +149,13 @@ impl LatLonGridDefinition {
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
         let ni = read_as!(u32, buf, 0);
         let nj = read_as!(u32, buf, 4);
-        let first_point_lat = read_as!(u32, buf, 16).as_grib_int();
-        let first_point_lon = read_as!(u32, buf, 20).as_grib_int();
-        let last_point_lat = read_as!(u32, buf, 25).as_grib_int();
-        let last_point_lon = read_as!(u32, buf, 29).as_grib_int();
+        let basic_angle = read_as!(u32, buf, 8);
+        let subdivisions = read_as!(u32, buf, 12);
+        let angle = |value| microdegrees(value, basic_angle, subdivisions);
+        let first_point_lat = angle(read_as!(u32, buf, 16).as_grib_int());
+        let first_point_lon = angle(read_as!(u32, buf, 20).as_grib_int());
+        let last_point_lat = angle(read_as!(u32, buf, 25).as_grib_int());
+        let last_point_lon = angle(read_as!(u32, buf, 29).as_grib_int());
         let scanning_mode = read_as!(u8, buf, 41);
         Self {
             ni,
-- 
2.43.0


From 674db774384d1ab91ccff8a2426c1e79642545a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 29/29] fix: compute the latitudes of Gaussian grids that cover
 a subarea

---
 src/grid/gaussian.rs | 58 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 9e85666..1ed47a5 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -22,6 +22,12 @@ pub struct GaussianGridDefinition {
 
 const MAX_ITER: usize = 10;
 
+// Maximum number of parallels between a pole and the equator in computation of
+// latitudes of a subarea, the cost of which depends on that number.
+const MAX_N: u32 = 10_000;
+
+const ROOT_FINDING_FAILURE: &str = "finding root for Legendre polynomial failed";
+
 impl GaussianGridDefinition {
     /// Returns the shape of the grid, i.e. a tuple of the number of grids in
     /// the i and j directions.
@@ -68,8 +74,7 @@ impl GaussianGridDefinition {
         if self.ni == 0 || self.nj == 0 {
             return Ok(RegularGridIterator::new(Vec::new(), Vec::new(), ij));
         }
-        let mut lat = compute_gaussian_latitudes_in_degrees(self.nj as usize)
-            .map_err(|e| GribError::Unknown(e.to_owned()))?;
+        let mut lat = self.latitudes_in_degrees()?;
         if self.scanning_mode.scans_positively_for_j() {
             lat.reverse()
         };
@@ -85,6 +90,37 @@ impl GaussianGridDefinition {
         Ok(iter)
     }
 
+    // Latitudes of the parallels of the grid from north to south.
+    fn latitudes_in_degrees(&self) -> Result<Vec<f64>, GribError> {
+        let failure = || GribError::Unknown(ROOT_FINDING_FAILURE.to_owned());
+        let (num, num_global) = (self.nj as usize, 2 * self.n as usize);
+        if num >= num_global || self.n == u32::MAX {
+            return compute_gaussian_latitudes_in_degrees(num).map_err(|_| failure());
+        }
+        if self.n > MAX_N {
+            return Err(GribError::NotSupported(format!(
+                "Gaussian grid with {num_global} parallels"
+            )));
+        }
+
+        // The grid covers a subarea, the northernmost parallel of which is the
+        // one closest to the latitude in the definition.
+        let north = i32::max(self.first_point_lat, self.last_point_lat);
+        let colatitude = (90. - f64::from(north) * 1e-6).to_radians();
+        let pos = (colatitude * (4 * num_global + 2) as f64 / std::f64::consts::PI - 3.) / 4.;
+        let start = pos.round().max(0.) as usize;
+        if start + num > num_global {
+            return Err(GribError::InvalidValueError(
+                "Latitudes for first/last grid points are not consistent with number of parallels"
+                    .to_owned(),
+            ));
+        }
+        (start..start + num)
+            .map(|i| legendre_root(num_global, i).map(|x| x.asin().to_degrees()))
+            .collect::<Option<Vec<_>>>()
+            .ok_or_else(failure)
+    }
+
     pub(crate) fn is_consistent_for_j(&self) -> bool {
         let lat_diff = i64::from(self.last_point_lat) - i64::from(self.first_point_lat);
         (self.nj == 1 && lat_diff == 0)
@@ -122,7 +158,7 @@ fn compute_gaussian_latitudes_in_degrees(div: usize) -> Result<Vec<f64>, &'stati
     let lat: Option<Vec<_>> = compute_gaussian_latitudes(div)
         .map(|x| x.map(|i| i.to_degrees()))
         .collect();
-    lat.ok_or("finding root for Legendre polynomial failed")
+    lat.ok_or(ROOT_FINDING_FAILURE)
 }
 
 /// Computes Gaussian latitudes in radians.
@@ -162,15 +198,17 @@ pub fn compute_gaussian_latitudes(div: usize) -> impl Iterator<Item = Option<f64
 //   Gauss-Legendre quadrature, Journal of Computational and Applied Mathematics,
 //   Volume 59, Issue 2, 1995, Pages 245-252, ISSN 0377-0427, https://doi.org/10.1016/0377-0427(94)00030-5.
 fn legendre_roots_iterator(n: usize) -> impl Iterator<Item = Option<f64>> {
+    (0..n).map(move |i| legendre_root(n, i))
+}
+
+fn legendre_root(n: usize, i: usize) -> Option<f64> {
     let nf = n as f64;
     let coeff = 1.0_f64 - 1.0 / (8.0 * nf * nf) + 1.0 / (8.0 * nf * nf * nf);
-    (0..n).map(move |i| {
-        let guess = coeff * ((4 * i + 3) as f64 * std::f64::consts::PI / (4 * n + 2) as f64).cos();
-        find_root(guess, |x| {
-            let (p_prev, p) = legendre_polynomial(n, x);
-            let fpx = legendre_polynomial_derivative(n, x, p_prev, p);
-            p / fpx
-        })
+    let guess = coeff * ((4 * i + 3) as f64 * std::f64::consts::PI / (4 * n + 2) as f64).cos();
+    find_root(guess, |x| {
+        let (p_prev, p) = legendre_polynomial(n, x);
+        let fpx = legendre_polynomial_derivative(n, x, p_prev, p);
+        p / fpx
     })
 }
 
-- 
2.43.0

