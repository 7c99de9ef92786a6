From 1be84287fe76dceb33e1f8b2594cc2188a0104d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 01/32] fix: do not underflow on reversed ranges in code tables

---
 gen/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gen/src/lib.rs b/gen/src/lib.rs
index a42eb0b..f65805f 100644
--- a/gen/src/lib.rs
+++ b/gen/src/lib.rs
@@ -106,6 +106,11 @@ const {}: &[& str] = &{:#?};",
             };
 
             if let Ok(range) = id.parse::<CodeRange>() {
+                if range.start > range.end {
+                    return Vec::new(); // Reversed ranges are not supported,
+                                       // either.
+                }
+
                 if let Some(string) = string {
                     while empty_count > 0 {
                         output.push(String::new());
-- 
2.43.0


From 9e8a1e8fb5cfd633ea34652100f4b3b0e0b91788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 02/32] fix: keep all rows of a code table whose rows are not
 contiguous

---
 gen/src/grib2_codeflag_csv.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gen/src/grib2_codeflag_csv.rs b/gen/src/grib2_codeflag_csv.rs
index 7baecf4..c809b40 100644
--- a/gen/src/grib2_codeflag_csv.rs
+++ b/gen/src/grib2_codeflag_csv.rs
@@ -78,15 +78,16 @@ impl CodeDB {
             let record: Record = record?;
             let category = record.subtitle.parse::<OptArg>()?;
 
-            let current = out_tables.last();
-            if current.is_none() || category != current.unwrap().0 {
-                let new_codetable = CodeTable::new(record.title);
-                out_tables.push((category, new_codetable));
-            }
+            let index = match out_tables.iter().position(|(c, _)| *c == category) {
+                Some(index) => index,
+                None => {
+                    let new_codetable = CodeTable::new(record.title);
+                    out_tables.push((category, new_codetable));
+                    out_tables.len() - 1
+                }
+            };
 
-            out_tables
-                .last_mut()
-                .unwrap()
+            out_tables[index]
                 .1
                 .data
                 .push((record.code_flag, record.description));
-- 
2.43.0


From d211ea8cf2312bd155e823b694e7fda94fe24bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 03/32] fix: do not take short or interrupted reads for the end
 of data

---
 src/reader.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1f63572..cabb3a9 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -212,6 +212,22 @@ impl<S: Seek> Seek for SeekableGrib2Reader<S> {
     }
 }
 
+/// Fills `buf` as far as data are available. Unlike a single call of `read`,
+/// this does not stop because the underlying reader returned fewer bytes than
+/// requested or was interrupted, so a smaller size means the end of data.
+fn read_available<R: Read>(reader: &mut R, buf: &mut [u8]) -> io::Result<usize> {
+    let mut size = 0;
+    while size < buf.len() {
+        match reader.read(&mut buf[size..]) {
+            Ok(0) => break,
+            Ok(n) => size += n,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(size)
+}
+
 macro_rules! check_size {
     ($size:expr, $expected_size:expr) => {{
         if $size == 0 {
@@ -233,7 +249,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         let mut offset = 0;
 
         loop {
-            let size = self.read(&mut buf[..])?;
+            let size = read_available(self, &mut buf[..])?;
             if size < SECT0_IS_SIZE {
                 return Ok(None);
             }
@@ -256,7 +272,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect8(&mut self) -> Result<Option<()>, ParseError> {
         let mut buf = [0; SECT8_ES_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = read_available(self, &mut buf[..])?;
         check_size!(size, buf.len());
 
         if buf[..] != SECT8_ES_MAGIC[..] {
@@ -268,7 +284,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_header(&mut self) -> Result<Option<SectHeader>, ParseError> {
         let mut buf = [0; SECT_HEADER_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = read_available(self, &mut buf[..])?;
         check_size!(size, buf.len());
 
         let sect_size = read_as!(u32, buf, 0) as usize;
-- 
2.43.0


From 6d3296f72a7cac96859e44682b1aaaa070bd41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 04/32] fix: reject impossible message and section sizes
 instead of overflowing

---
 src/reader.rs | 66 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index cabb3a9..7aed8e8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -90,19 +90,28 @@ where
             .reader
             .read_sect0()
             .transpose()?
-            .map(|(offset, indicator)| {
-                self.whole_size += offset;
-                let offset = self.whole_size;
+            .and_then(|(offset, indicator)| {
+                let offset = self.whole_size + offset;
                 let message_size = indicator.total_length as usize;
-                self.whole_size += message_size;
-                let sect_info = SectionInfo {
+                let (whole_size, rest_size) = match (
+                    offset.checked_add(message_size),
+                    message_size.checked_sub(SECT0_IS_SIZE),
+                ) {
+                    (Some(whole_size), Some(rest_size)) => (whole_size, rest_size),
+                    _ => {
+                        return Err(ParseError::ReadError(format!(
+                            "invalid message size: {message_size}"
+                        )))
+                    }
+                };
+                self.whole_size = whole_size;
+                self.rest_size = rest_size;
+                Ok(SectionInfo {
                     num: 0,
                     offset,
                     size: SECT0_IS_SIZE,
                     body: Some(SectionBody::Section0(indicator)),
-                };
-                self.rest_size = message_size - SECT0_IS_SIZE;
-                sect_info
+                })
             });
         Some(result)
     }
@@ -133,6 +142,12 @@ where
         let result = self.reader.read_sect_header().transpose()?;
         match result {
             Ok(header) => {
+                if header.0 > self.rest_size {
+                    return Some(Err(ParseError::ReadError(format!(
+                        "section size {} exceeds the rest of the message {}",
+                        header.0, self.rest_size
+                    ))));
+                }
                 let offset = self.whole_size - self.rest_size;
                 match self.reader.read_sect_payload(&header) {
                     Ok(body) => {
@@ -295,7 +310,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_payload(&mut self, header: &SectHeader) -> Result<SectionBody, ParseError> {
         let (size, num) = header;
-        let body_size = size - SECT_HEADER_SIZE;
+        let body_size = get_body_size(*size)?;
         let body = match num {
             1 => SectionBody::Section1(Identification::from_payload(
                 self.read_slice_without_offset_check(body_size)?,
@@ -322,23 +337,21 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_payload_as_slice(&mut self, sect: &SectionInfo) -> Result<Box<[u8]>, ParseError> {
         let body_offset = sect.offset + SECT_HEADER_SIZE;
+        let body_size = get_body_size(sect.size)?;
         self.seek(SeekFrom::Start(body_offset as u64))?;
 
-        let body_size = sect.size - SECT_HEADER_SIZE;
-        let mut buf = vec![0; body_size];
-        self.read_exact(buf.as_mut_slice())?;
-
-        Ok(buf.into_boxed_slice())
+        self.read_slice_without_offset_check(body_size)
     }
 
     fn read_sect6_payload(&mut self, body_size: usize) -> Result<SectionBody, ParseError> {
         let mut buf = [0; 1]; // octet 6
         self.read_exact(&mut buf[..])?;
 
-        let len_extra = body_size - buf.len();
+        let len_extra = body_size
+            .checked_sub(buf.len())
+            .ok_or(BuildError::SectionSizeTooSmall(body_size))?;
         if len_extra > 0 {
-            let mut buf = vec![0; len_extra];
-            self.read_exact(&mut buf[..])?;
+            self.read_slice_without_offset_check(len_extra)?;
         }
 
         Ok(SectionBody::Section6(BitMap {
@@ -353,14 +366,29 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
     }
 
     fn read_slice_without_offset_check(&mut self, size: usize) -> Result<Box<[u8]>, ParseError> {
-        let mut buf = vec![0; size];
-        self.read_exact(&mut buf[..])?;
+        // Since the size is not reliable, memory is allocated only for data which
+        // actually exist.
+        let mut buf = Vec::new();
+        self.take(size as u64).read_to_end(&mut buf)?;
+        if buf.len() != size {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "failed to fill whole buffer",
+            )
+            .into());
+        }
         Ok(buf.into_boxed_slice())
     }
 }
 
 type SectHeader = (usize, u8);
 
+fn get_body_size(sect_size: usize) -> Result<usize, BuildError> {
+    sect_size
+        .checked_sub(SECT_HEADER_SIZE)
+        .ok_or(BuildError::SectionSizeTooSmall(sect_size))
+}
+
 #[cfg(test)]
 mod tests {
     use std::io::{Cursor, Write};
-- 
2.43.0


From b90bc1aca3ee93f6b6c937efeb513d3048026c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 05/32] fix: handle grids without extent and check grid sizes
 before computing coordinates

---
 src/context.rs       |  7 ++++---
 src/grid.rs          |  2 ++
 src/grid/gaussian.rs | 12 ++++++++----
 src/grid/helpers.rs  | 11 ++++++++---
 src/grid/latlon.rs   | 11 +++++++----
 5 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index de57476..138684a 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -670,10 +670,11 @@ Data Representation:                    {}
     pub fn latlons(&self) -> Result<GridPointIterator, GribError> {
         let grid_def = self.grid_def();
         let num_defined = grid_def.num_points() as usize;
-        let latlons = GridDefinitionTemplateValues::try_from(grid_def)?.latlons()?;
-        let (num_decoded, _) = latlons.size_hint();
+        let grid = GridDefinitionTemplateValues::try_from(grid_def)?;
+        // Checked before the computation since the grid may be inconsistently huge.
+        let (num_decoded, _) = grid.ij()?.size_hint();
         if num_defined == num_decoded {
-            Ok(latlons)
+            grid.latlons()
         } else {
             Err(GribError::InvalidValueError(format!(
                 "number of grid points does not match: {num_defined} (defined) vs {num_decoded} (decoded)"
diff --git a/src/grid.rs b/src/grid.rs
index c77eea0..69bd4fc 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -62,6 +62,8 @@ impl GridPointIndexIterator {
         } else {
             (i_len, j_len)
         };
+        // A grid with no points in the minor direction has no points at all.
+        let major_len = if minor_len == 0 { 0 } else { major_len };
 
         Self {
             major_len,
diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 9a439d6..60f076b 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -74,7 +74,7 @@ impl GaussianGridDefinition {
         let lon = evenly_spaced_longitudes(
             self.first_point_lon,
             self.last_point_lon,
-            (self.ni - 1) as usize,
+            self.ni.saturating_sub(1) as usize,
             self.scanning_mode,
         );
 
@@ -83,8 +83,11 @@ impl GaussianGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        if self.nj <= 1 && self.last_point_lat == self.first_point_lat {
+            return true;
+        }
+        let lat_increases = self.last_point_lat > self.first_point_lat;
+        !(lat_increases ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
@@ -155,7 +158,8 @@ pub fn compute_gaussian_latitudes(div: usize) -> impl Iterator<Item = Option<f64
 //   Gauss-Legendre quadrature, Journal of Computational and Applied Mathematics,
 //   Volume 59, Issue 2, 1995, Pages 245-252, ISSN 0377-0427, https://doi.org/10.1016/0377-0427(94)00030-5.
 fn legendre_roots_iterator(n: usize) -> impl Iterator<Item = Option<f64>> {
-    let coeff = 1.0_f64 - 1.0 / (8 * n * n) as f64 + 1.0 / (8 * n * n * n) as f64;
+    let nf = n as f64;
+    let coeff = 1.0_f64 - 1.0 / (8.0 * nf * nf) + 1.0 / (8.0 * nf * nf * nf);
     (0..n).map(move |i| {
         let guess = coeff * ((4 * i + 3) as f64 * std::f64::consts::PI / (4 * n + 2) as f64).cos();
         find_root(guess, |x| {
diff --git a/src/grid/helpers.rs b/src/grid/helpers.rs
index 1ec1d55..ed6231c 100644
--- a/src/grid/helpers.rs
+++ b/src/grid/helpers.rs
@@ -11,8 +11,9 @@ pub(crate) fn evenly_spaced_longitudes(
     div: usize,
     scanning_mode: ScanningMode,
 ) -> Vec<f32> {
-    let diff = end_microdegree - start_microdegree;
-    let is_consistent = !((diff > 0) ^ scanning_mode.scans_positively_for_i());
+    let increases = end_microdegree > start_microdegree;
+    // The scanning direction does not matter if there is only one point.
+    let is_consistent = div == 0 || !(increases ^ scanning_mode.scans_positively_for_i());
 
     let (start, end) = (start_microdegree as f32, end_microdegree as f32);
     let (start, end) = if is_consistent {
@@ -39,7 +40,11 @@ pub(crate) fn evenly_spaced_degrees(
     end_microdegree: f32,
     div: usize,
 ) -> Vec<f32> {
-    let delta = (end_microdegree - start_microdegree) / div as f32;
+    let delta = if div == 0 {
+        0.0
+    } else {
+        (end_microdegree - start_microdegree) / div as f32
+    };
     (0..=div)
         .map(move |x| (start_microdegree + x as f32 * delta) / 1_000_000_f32)
         .collect()
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index ca60a1e..de03f65 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -122,12 +122,12 @@ impl LatLonGridDefinition {
         let lat = evenly_spaced_degrees(
             self.first_point_lat as f32,
             self.last_point_lat as f32,
-            (self.nj - 1) as usize,
+            self.nj.saturating_sub(1) as usize,
         );
         let lon = evenly_spaced_longitudes(
             self.first_point_lon,
             self.last_point_lon,
-            (self.ni - 1) as usize,
+            self.ni.saturating_sub(1) as usize,
             self.scanning_mode,
         );
 
@@ -136,8 +136,11 @@ impl LatLonGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        if self.nj <= 1 && self.last_point_lat == self.first_point_lat {
+            return true;
+        }
+        let lat_increases = self.last_point_lat > self.first_point_lat;
+        !(lat_increases ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
-- 
2.43.0


From e2321461a3fb543b9110dd2c966cc462e491cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 06/32] fix: let nth() of submessage iterators skip from the
 current position

---
 src/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 138684a..1937cc9 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -332,7 +332,10 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.pos = n;
+        self.pos = self
+            .pos
+            .saturating_add(n)
+            .min(self.context.submessages.len());
         self.next()
     }
 }
-- 
2.43.0


From bf45dade884f9808049448fb8a718a9c18c9e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 07/32] fix: stop decoded values at the number of grid points

---
 src/decoder/bitmap.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/decoder/bitmap.rs b/src/decoder/bitmap.rs
index 23eeff5..7db1968 100644
--- a/src/decoder/bitmap.rs
+++ b/src/decoder/bitmap.rs
@@ -39,15 +39,14 @@ where
         if offset >= self.len {
             return None;
         }
-        let byte = if self.offset < 7 {
-            self.offset += 1;
+        let byte = if offset % 8 < 7 {
             self.bitmap.peek()?
         } else {
-            self.offset = 0;
             self.bitmap.next()?
         };
+        self.offset += 1;
 
-        if has_zero_at_offset(byte, &offset) {
+        if has_zero_at_offset(byte, &(offset % 8)) {
             Some(f32::NAN)
         } else {
             self.values.next()
-- 
2.43.0


From 67c10369cd62bfb3f5c66f8117248f237edba73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 08/32] fix: report too short data representation sections as
 errors

---
 src/decoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5ece124..bab5e24 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -124,6 +124,17 @@ impl Grib2SubmessageDecoder {
     pub fn dispatch(
         &self,
     ) -> Result<Grib2DecodedValues<impl Iterator<Item = f32> + '_>, GribError> {
+        let sect5_min_len = match self.template_num {
+            0 | 40 | 41 => 16,
+            2 => 42,
+            3 => 44,
+            200 => 12,
+            _ => 0,
+        };
+        if self.sect5_payload.len() < sect5_min_len {
+            return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+        }
+
         let decoder = match self.template_num {
             0 => Grib2ValueIterator::Template0(simple::decode(self)?),
             2 => Grib2ValueIterator::Template2(complex::decode_7_2(self)?),
-- 
2.43.0


From 448eeacc92d7ebe95e2839c907334dcac34785bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 09/32] fix: handle all widths and malformed data in run length
 decoding

---
 src/decoder/run_length.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 33888c1..1e04fb6 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -21,6 +21,10 @@ pub(crate) fn decode(
     let max_level = read_as!(u16, sect5_data, 9);
     let num_digits = read_as!(u8, sect5_data, 11);
 
+    if sect5_data.len() < 12 + std::mem::size_of::<u16>() * usize::from(max_level) {
+        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+    }
+
     let mut level_map = Vec::with_capacity(max_level.into());
     level_map.push(f32::NAN);
     let mut pos = 12;
@@ -63,28 +67,39 @@ fn rleunpack(
     maxv: u16,
     expected_len: Option<usize>,
 ) -> Result<Box<[u16]>, RunLengthEncodingDecodeError> {
-    let mut out_buf = match expected_len {
-        Some(sz) => Vec::with_capacity(sz),
-        None => Vec::new(),
-    };
+    if nbit == 0 || nbit > 16 {
+        return Err(RunLengthEncodingDecodeError::NotSupported);
+    }
 
-    let rlbase = maxv + 1;
-    let lngu: usize = ((1u16 << nbit) - rlbase).into();
+    let mut out_buf = Vec::new();
+
+    let rlbase = u32::from(maxv) + 1;
+    let lngu = (1u32 << nbit).saturating_sub(rlbase) as usize;
     let mut cached = None;
     let mut exp: usize = 1;
     let iter = NBitwiseIterator::new(input, usize::from(nbit));
+    let mut remaining_bits = input.len() * 8;
 
     for value in iter {
-        let value = value as u16;
+        // Zero bits which fill up the last octet are not values.
+        if remaining_bits < 8 && value == 0 && expected_len == Some(out_buf.len()) {
+            break;
+        }
+        remaining_bits -= usize::from(nbit);
+
         if rlbase > value {
-            out_buf.push(value);
-            cached = Some(value);
+            out_buf.push(value as u16);
+            cached = Some(value as u16);
             exp = 1;
         } else {
             let prev = cached.ok_or(RunLengthEncodingDecodeError::InvalidFirstValue)?;
-            let length: usize = ((value - rlbase) as usize) * exp;
-            out_buf.append(&mut vec![prev; length]);
-            exp *= lngu;
+            let length = ((value - rlbase) as usize).saturating_mul(exp);
+            let new_len = out_buf.len().saturating_add(length);
+            if expected_len.is_some_and(|len| new_len > len) {
+                return Err(RunLengthEncodingDecodeError::LengthMismatch);
+            }
+            out_buf.resize(new_len, prev);
+            exp = exp.saturating_mul(lngu);
         }
     }
 
-- 
2.43.0


From 8836b5afe7ce7cf51d50478613acde2803b3bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 10/32] fix: validate group sizes and avoid integer overflows
 in complex packing

---
 src/decoder/complex.rs      | 100 ++++++++++++++++++++++++++++--------
 src/decoder/complex/diff.rs |  17 +++---
 src/decoder/stream.rs       |   2 +
 3 files changed, 92 insertions(+), 27 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 34d09eb..93fcf80 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -18,7 +18,7 @@ use crate::{
         DecodeError, Grib2SubmessageDecoder,
     },
     error::*,
-    helpers::{read_as, GribInt},
+    helpers::read_as,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -30,7 +30,7 @@ pub enum ComplexPackingDecodeError {
 pub(crate) fn decode_7_2(
     target: &Grib2SubmessageDecoder,
 ) -> Result<
-    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
+    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i64>> + '_>,
     GribError,
 > {
     let sect5_data = &target.sect5_payload;
@@ -47,7 +47,15 @@ pub(crate) fn decode_7_2(
 
     let sect7_data = &target.sect7_payload;
 
-    let unpacked_data = decode_complex_packing(complex_param, sect7_data, 0, simple_param.nbit, 0);
+    let unpacked_data = decode_complex_packing(
+        complex_param,
+        sect7_data,
+        0,
+        simple_param.nbit,
+        0,
+        target.num_points_encoded,
+    )
+    .map_err(DecodeError::ComplexPackingDecodeError)?;
     let decoder = SimplePackingDecodeIterator::new(unpacked_data, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
     Ok(decoder)
@@ -91,7 +99,14 @@ pub(crate) fn decode_7_3(
         sect7_params.len(),
         simple_param.nbit,
         sect7_params.minimum(),
-    );
+        target.num_points_encoded,
+    )
+    .map_err(DecodeError::ComplexPackingDecodeError)?
+    .map(|v| match v {
+        Normal(v) => Normal(v as i32),
+        Missing1 => Missing1,
+        Missing2 => Missing2,
+    });
     let first_values = sect7_params.first_values();
     let first_values = first_values.collect::<Vec<_>>().into_iter();
     let spdiff_unpacked = match spdiff_order {
@@ -114,19 +129,27 @@ fn decode_complex_packing(
     sect7_offset: usize,
     nbit: u8,
     z_min: i32,
-) -> impl Iterator<Item = DecodedValue<i32>> + '_ {
+    num_points: usize,
+) -> Result<impl Iterator<Item = DecodedValue<i64>> + '_, ComplexPackingDecodeError> {
     fn get_octet_length(nbit: u8, ngroup: u32) -> usize {
-        let total_bit: u32 = ngroup * u32::from(nbit);
+        let total_bit = u64::from(ngroup) * u64::from(nbit);
         let total_octet = (total_bit + 0b111) >> 3;
         total_octet as usize
     }
 
+    if nbit > 32 || complex_param.group_width_nbit > 32 || complex_param.group_len_nbit > 32 {
+        return Err(ComplexPackingDecodeError::NotSupported);
+    }
+
     let params_end_octet = sect7_offset;
     let group_refs_end_octet = params_end_octet + get_octet_length(nbit, complex_param.ngroup);
     let group_widths_end_octet = group_refs_end_octet
         + get_octet_length(complex_param.group_width_nbit, complex_param.ngroup);
     let group_lens_end_octet = group_widths_end_octet
         + get_octet_length(complex_param.group_len_nbit, complex_param.ngroup);
+    if complex_param.ngroup as usize > num_points || group_lens_end_octet > sect7_data.len() {
+        return Err(ComplexPackingDecodeError::LengthMismatch);
+    }
 
     let group_refs_iter = BitStream::new(
         &sect7_data[params_end_octet..group_refs_end_octet],
@@ -142,19 +165,29 @@ fn decode_complex_packing(
     );
     let group_widths_iter = group_widths_iter
         .take(complex_param.ngroup as usize)
-        .map(move |v| u32::from(complex_param.group_width_ref) + v);
+        .map(move |v| u64::from(complex_param.group_width_ref) + u64::from(v));
 
     let group_lens_iter = BitStream::new(
         &sect7_data[group_widths_end_octet..group_lens_end_octet],
         usize::from(complex_param.group_len_nbit),
-        (complex_param.ngroup - 1) as usize,
+        complex_param.ngroup.saturating_sub(1) as usize,
     );
     let group_lens_iter = group_lens_iter
-        .take((complex_param.ngroup - 1) as usize)
-        .map(move |v| complex_param.group_len_ref + u32::from(complex_param.group_len_inc) * v)
-        .chain(iter::once(complex_param.group_len_last));
+        .take(complex_param.ngroup.saturating_sub(1) as usize)
+        .map(move |v| {
+            u64::from(complex_param.group_len_ref)
+                + u64::from(complex_param.group_len_inc) * u64::from(v)
+        })
+        .chain(iter::once(u64::from(complex_param.group_len_last)));
 
-    ComplexPackingValueDecodeIterator::new(
+    let values_len = (sect7_data.len() - group_lens_end_octet) as u64 * 8;
+    check_group_lengths(
+        group_widths_iter.clone().zip(group_lens_iter.clone()),
+        values_len,
+        num_points as u64,
+    )?;
+
+    let values = ComplexPackingValueDecodeIterator::new(
         group_refs_iter,
         group_widths_iter,
         group_lens_iter,
@@ -162,8 +195,32 @@ fn decode_complex_packing(
         nbit,
         z_min,
         sect7_data[group_lens_end_octet..].to_vec(),
-    )
-    .flatten()
+    );
+    Ok(values.flatten())
+}
+
+// Checks that the groups hold exactly `num_points` values in total, all of which are within
+// `num_bits` bits of packed data.
+fn check_group_lengths(
+    groups: impl Iterator<Item = (u64, u64)>,
+    num_bits: u64,
+    num_points: u64,
+) -> Result<(), ComplexPackingDecodeError> {
+    let (mut total_bits, mut total_points) = (0, 0);
+    for (width, length) in groups {
+        if width > 32 {
+            return Err(ComplexPackingDecodeError::NotSupported);
+        }
+        total_points += length;
+        if total_points > num_points {
+            return Err(ComplexPackingDecodeError::LengthMismatch);
+        }
+        total_bits += width * length;
+    }
+    if total_points != num_points || total_bits > num_bits {
+        return Err(ComplexPackingDecodeError::LengthMismatch);
+    }
+    Ok(())
 }
 
 #[derive(Clone)]
@@ -212,7 +269,7 @@ where
     O: ToPrimitive,
     P: ToPrimitive,
 {
-    type Item = Vec<DecodedValue<i32>>;
+    type Item = Vec<DecodedValue<i64>>;
 
     fn next(&mut self) -> Option<Self::Item> {
         match (
@@ -223,9 +280,9 @@ where
             (Some(_ref), Some(width), Some(length)) if width.to_usize().unwrap() == 0 => {
                 // The specification states as follows: "For groups with a constant value,
                 // associated field width is 0, and no incremental data are physically present."
-                let _ref = _ref.to_i32().unwrap();
+                let _ref = _ref.to_i64().unwrap();
                 let length = length.to_usize().unwrap();
-                let missing1 = (1 << self.nbit) - 1;
+                let missing1 = (1_i64 << self.nbit) - 1;
                 let missing2 = missing1 - 1;
 
                 if self.missing_value_management > 0 && _ref == missing1 {
@@ -233,31 +290,32 @@ where
                 } else if self.missing_value_management == 2 && _ref == missing2 {
                     Some(vec![Missing2; length])
                 } else {
-                    Some(vec![Normal(_ref + self.z_min); length])
+                    Some(vec![Normal(_ref + i64::from(self.z_min)); length])
                 }
             }
             (Some(_ref), Some(width), Some(length)) => {
                 let (_ref, width, length) = (
-                    _ref.to_i32().unwrap(),
+                    _ref.to_i64().unwrap(),
                     width.to_usize().unwrap(),
                     length.to_usize().unwrap(),
                 );
                 let bits = self.start_offset_bits + width * length;
                 let (pos_end, offset_bits) = (self.pos + bits / 8, bits % 8);
                 let offset_byte = usize::from(offset_bits > 0);
-                let missing1 = (1 << width) - 1;
+                let missing1 = (1_i64 << width) - 1;
                 let missing2 = missing1 - 1;
                 let group_values =
                     NBitwiseIterator::new(&self.data[self.pos..pos_end + offset_byte], width)
                         .with_offset(self.start_offset_bits)
                         .take(length)
                         .map(|v| {
+                            let v = i64::from(v);
                             if self.missing_value_management > 0 && v == missing1 {
                                 Missing1
                             } else if self.missing_value_management == 2 && v == missing2 {
                                 Missing2
                             } else {
-                                Normal(v.as_grib_int() + _ref + self.z_min)
+                                Normal(v + _ref + i64::from(self.z_min))
                             }
                         })
                         .collect::<Vec<_>>();
diff --git a/src/decoder/complex/diff.rs b/src/decoder/complex/diff.rs
index b7c94c3..94e3480 100644
--- a/src/decoder/complex/diff.rs
+++ b/src/decoder/complex/diff.rs
@@ -23,10 +23,13 @@ impl<'a> SpatialDifferencingExtraDescriptors<'a> {
         let num_octets = usize::from(num_octets);
         let byte_length = usize::from(spdiff_order + 1) * num_octets;
 
-        Ok(Self {
-            slice: &parent_slice[..byte_length],
-            num_octets,
-        })
+        let slice = parent_slice
+            .get(..byte_length)
+            .ok_or(GribError::DecodeError(
+                DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::LengthMismatch),
+            ))?;
+
+        Ok(Self { slice, num_octets })
     }
 
     // total number of octets for descriptors
@@ -134,7 +137,7 @@ where
                     Some(Normal(self.prev))
                 }
                 _ => {
-                    let v = v + self.prev;
+                    let v = v.wrapping_add(self.prev);
                     self.prev = v;
                     Some(Normal(v))
                 }
@@ -186,7 +189,9 @@ where
                     Some(Normal(self.prev1))
                 }
                 _ => {
-                    let v = v + 2 * self.prev1 - self.prev2;
+                    let v = v
+                        .wrapping_add(self.prev1.wrapping_mul(2))
+                        .wrapping_sub(self.prev2);
                     self.prev2 = self.prev1;
                     self.prev1 = v;
                     Some(Normal(v))
diff --git a/src/decoder/stream.rs b/src/decoder/stream.rs
index 1340b1d..d2e369f 100644
--- a/src/decoder/stream.rs
+++ b/src/decoder/stream.rs
@@ -1,3 +1,4 @@
+#[derive(Clone)]
 pub(crate) enum BitStream<T> {
     ZeroSized(FixedValueIterator<u32>),
     NonZeroSized(NBitwiseIterator<T>),
@@ -29,6 +30,7 @@ where
     }
 }
 
+#[derive(Clone)]
 pub(crate) struct FixedValueIterator<T> {
     val: T,
     length: usize,
-- 
2.43.0


From 8326b2d88a8d140e0adf264e57372f5e39403b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 11/32] fix: handle PNG images with constant fields, row
 padding and wrong sizes

---
 src/decoder/png.rs | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 3ed7a36..13eb8f6 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -19,12 +19,6 @@ pub(crate) fn decode(
     let sect5_data = &target.sect5_payload;
     let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
 
-    let buf = read_image_buffer(&target.sect7_payload).map_err(|e| {
-        GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
-            e.to_string(),
-        )))
-    })?;
-
     if param.nbit == 0 {
         eprintln!(
             "WARNING: nbit = 0 for PNG decoder is not tested.
@@ -37,6 +31,19 @@ pub(crate) fn decode(
         return Ok(decoder);
     };
 
+    let nbit = usize::from(param.nbit);
+    let mut reader = read_image_header(&target.sect7_payload).map_err(png_error)?;
+    let (width, height) = reader.info().size();
+    if u64::from(width) * u64::from(height) != target.num_points_encoded as u64 {
+        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+    }
+    if reader.info().bits_per_pixel() != nbit {
+        return Err(GribError::DecodeError(DecodeError::PngDecodeError(
+            PngDecodeError::NotSupported,
+        )));
+    }
+    let buf = read_image_buffer(&mut reader).map_err(png_error)?;
+
     if param.nbit != 16 {
         eprintln!(
             "WARNING: nbit != 16 for PNG decoder is not tested.
@@ -44,16 +51,34 @@ pub(crate) fn decode(
         );
     }
 
-    let iter = NBitwiseIterator::new(buf, usize::from(param.nbit));
+    // Each row of the image starts at an octet boundary.
+    let row_size = reader.output_line_size(width);
+    let iter = (0..buf.len()).step_by(row_size).flat_map(move |pos| {
+        let row = buf[pos..pos + row_size].to_vec();
+        NBitwiseIterator::new(row, nbit).take(width as usize)
+    });
     let iter = SimplePackingDecodeIterator::new(iter, &param);
     let iter = SimplePackingDecodeIteratorWrapper::SimplePacking(iter);
     Ok(iter)
 }
 
-fn read_image_buffer(buf: &[u8]) -> Result<Vec<u8>, png::DecodingError> {
-    let reader = std::io::Cursor::new(&buf);
+fn png_error(e: png::DecodingError) -> GribError {
+    GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
+        e.to_string(),
+    )))
+}
+
+fn read_image_header(
+    buf: &[u8],
+) -> Result<png::Reader<std::io::Cursor<&[u8]>>, png::DecodingError> {
+    let reader = std::io::Cursor::new(buf);
     let decoder = png::Decoder::new(reader);
-    let mut reader = decoder.read_info()?;
+    decoder.read_info()
+}
+
+fn read_image_buffer(
+    reader: &mut png::Reader<std::io::Cursor<&[u8]>>,
+) -> Result<Vec<u8>, png::DecodingError> {
     let mut out_buf = vec![0; reader.output_buffer_size()];
     let _info = reader.next_frame(&mut out_buf)?;
     Ok(out_buf)
-- 
2.43.0


From f93f1c3c67bcb976a9cbbd2cc29f5cc671d269da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 12/32] fix: check JPEG 2000 images before using them and
 signal the end of code streams

---
 src/decoder/jpeg2000.rs     | 33 +++++++++++++++++++++------------
 src/decoder/jpeg2000/ext.rs | 20 +++++---------------
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index e6c1cf6..bde5310 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -40,14 +40,17 @@ pub(crate) fn decode(
 
     let stream = Stream::from_bytes(&target.sect7_payload)
         .map_err(|e| GribError::DecodeError(DecodeError::Jpeg2000CodeStreamDecodeError(e)))?;
-    let jp2_unpacked = decode_jp2(stream)
+    let jp2_unpacked = decode_jp2(stream, target.num_points_encoded)
         .map_err(|e| GribError::DecodeError(DecodeError::Jpeg2000CodeStreamDecodeError(e)))?;
     let decoder = SimplePackingDecodeIterator::new(jp2_unpacked, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
     Ok(decoder)
 }
 
-fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeStreamDecodeError> {
+fn decode_jp2(
+    stream: Stream,
+    num_points: usize,
+) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeStreamDecodeError> {
     let codec = Codec::j2k()?;
 
     let mut decode_params = unsafe { std::mem::zeroed::<opj::opj_dparameters>() };
@@ -63,6 +66,14 @@ fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeS
         return Err(Jpeg2000CodeStreamDecodeError::MainHeaderReadError);
     }
 
+    // Checked before decoding since the size of the image may be inconsistently huge.
+    if image.num_components() != 1 {
+        return Err(Jpeg2000CodeStreamDecodeError::NotSupported);
+    }
+    if u64::from(image.width()) * u64::from(image.height()) != num_points as u64 {
+        return Err(Jpeg2000CodeStreamDecodeError::LengthMismatch);
+    }
+
     if unsafe { opj::opj_decode(codec.0.as_ptr(), stream.0, image.0) } != 1 {
         return Err(Jpeg2000CodeStreamDecodeError::BodyReadError);
     }
@@ -70,17 +81,15 @@ fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeS
     drop(codec);
     drop(stream);
 
-    let width = image.width();
-    let height = image.height();
-    let factor = image.factor();
-
-    let width = value_for_discard_level(width, factor);
-    let height = value_for_discard_level(height, factor);
-
     if let [comp_gray] = image.components() {
-        let vec = unsafe {
-            std::slice::from_raw_parts(comp_gray.data, (width * height) as usize).to_vec()
-        };
+        let len = comp_gray.w as usize * comp_gray.h as usize;
+        if len != num_points {
+            return Err(Jpeg2000CodeStreamDecodeError::LengthMismatch);
+        }
+        if comp_gray.data.is_null() {
+            return Err(Jpeg2000CodeStreamDecodeError::BodyReadError);
+        }
+        let vec = unsafe { std::slice::from_raw_parts(comp_gray.data, len).to_vec() };
         Ok(vec.into_iter())
     } else {
         Err(Jpeg2000CodeStreamDecodeError::NotSupported)
diff --git a/src/decoder/jpeg2000/ext.rs b/src/decoder/jpeg2000/ext.rs
index 9b71972..52a3296 100644
--- a/src/decoder/jpeg2000/ext.rs
+++ b/src/decoder/jpeg2000/ext.rs
@@ -62,6 +62,11 @@ impl Stream {
 
             let bytes_left = len - offset;
 
+            if bytes_left == 0 {
+                // the value denoting the end of the stream
+                return usize::MAX;
+            }
+
             let bytes_read = std::cmp::min(bytes_left, p_nb_bytes);
 
             let slice = &(*user_data).buf[offset..offset + bytes_read];
@@ -146,19 +151,4 @@ impl Image {
         let comps_len = self.num_components();
         unsafe { std::slice::from_raw_parts((*self.0).comps, comps_len as usize) }
     }
-
-    pub(crate) fn factor(&self) -> u32 {
-        unsafe { (*(*self.0).comps).factor }
-    }
-}
-
-pub(crate) fn value_for_discard_level(u: u32, discard_level: u32) -> u32 {
-    let div = 1 << discard_level;
-    let quot = u / div;
-    let rem = u % div;
-    if rem > 0 {
-        quot + 1
-    } else {
-        quot
-    }
 }
-- 
2.43.0


From 872447076c7fa8bca022ba40f1af7a7f198f2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 13/32] fix: do not read product attributes beyond the end of
 sections

---
 src/datatypes/sections.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 242550d..552a9ec 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -436,8 +436,14 @@ impl ProdDefinition {
             let unit_index = START_OF_PROD_TEMPLATE + unit_index;
             let unit = self.payload.get(unit_index).copied();
             let start = unit_index + 1;
-            let end = unit_index + 5;
-            let time = u32::from_be_bytes(self.payload[start..end].try_into().unwrap());
+            let time = if self.prod_tmpl_num() == 44 {
+                // only 2 octets long in this template
+                let bytes = self.payload.get(start..start + 2)?;
+                u32::from(u16::from_be_bytes(bytes.try_into().unwrap()))
+            } else {
+                let bytes = self.payload.get(start..start + 4)?;
+                u32::from_be_bytes(bytes.try_into().unwrap())
+            };
             unit.map(|v| ForecastTime::from_numbers(v, time))
         } else {
             None
@@ -487,8 +493,8 @@ impl ProdDefinition {
         let scale_factor = self.payload.get(index + 1).map(|v| (*v).as_grib_int());
         let start = index + 2;
         let end = index + 6;
-        let scaled_value =
-            u32::from_be_bytes(self.payload[start..end].try_into().unwrap()).as_grib_int();
+        let scaled_value = self.payload.get(start..end)?;
+        let scaled_value = u32::from_be_bytes(scaled_value.try_into().unwrap()).as_grib_int();
         surface_type
             .zip(scale_factor)
             .map(|(stype, factor)| FixedSurface::new(stype, factor, scaled_value))
-- 
2.43.0


From b1d55f19396fa59c0cb657dcd7436aa1f590ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 14/32] fix: read generating processes from the octets defined
 by the templates

---
 src/datatypes/sections.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 552a9ec..7458f88 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -374,8 +374,7 @@ impl ProdDefinition {
             let index = match self.prod_tmpl_num() {
                 0..=39 => Some(2),
                 40..=43 => Some(4),
-                44..=46 => Some(15),
-                47 => Some(2),
+                44..=47 => Some(15),
                 48..=49 => Some(26),
                 51 => Some(2),
                 // 53 and 54 is variable and not supported as of now
@@ -388,12 +387,10 @@ impl ProdDefinition {
                 70..=73 => Some(7),
                 76..=79 => Some(5),
                 80..=81 => Some(27),
-                82 => Some(16),
-                83 => Some(2),
-                84 => Some(16),
+                82..=84 => Some(16),
                 85 => Some(15),
                 86..=91 => Some(2),
-                254 => Some(2),
+                // 254 has no generating process
                 1000..=1101 => Some(2),
                 _ => None,
             }?;
-- 
2.43.0


From bd1221bce7d3db506da9f30ee7481ea36e6a979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 15/32] fix: report too short grid definition sections as
 errors

---
 src/datatypes/sections.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 7458f88..ce7113c 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -266,6 +266,17 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
 
     fn try_from(value: &GridDefinition) -> Result<Self, Self::Error> {
         let num = value.grid_tmpl_num();
+        let min_len = match num {
+            0 | 40 => 67,
+            20 => 60,
+            30 => 68,
+            _ => 0,
+        };
+        if value.payload.len() < min_len {
+            return Err(GribError::InvalidValueError(format!(
+                "section is too short for grid definition template {num}"
+            )));
+        }
         match num {
             0 => {
                 let buf = &value.payload;
-- 
2.43.0


From 7b210bcc2015a792b48398ff468662ca3ba46adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 16/32] fix: apply scale factors of Earth radii in the right
 direction

---
 src/grid/earth.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/grid/earth.rs b/src/grid/earth.rs
index e526f9b..9ecd1f8 100644
--- a/src/grid/earth.rs
+++ b/src/grid/earth.rs
@@ -1,4 +1,4 @@
-use crate::helpers::read_as;
+use crate::helpers::{read_as, GribInt};
 
 #[derive(Debug, PartialEq, Eq)]
 pub struct EarthShapeDefinition {
@@ -19,7 +19,7 @@ impl EarthShapeDefinition {
                 let radius = f64::from(self.scaled_value_of_radius_of_spherical_earth)
                     * f64::powf(
                         10.,
-                        f64::from(self.scale_factor_of_radius_of_spherical_earth),
+                        -f64::from(self.scale_factor_of_radius_of_spherical_earth.as_grib_int()),
                     );
                 (radius, radius)
             }
@@ -40,9 +40,15 @@ impl EarthShapeDefinition {
 
     fn radii_defined(&self) -> (f64, f64) {
         let major = f64::from(self.scaled_value_of_earth_major_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_major_axis));
+            * f64::powf(
+                10.,
+                -f64::from(self.scale_factor_of_earth_major_axis.as_grib_int()),
+            );
         let minor = f64::from(self.scaled_value_of_earth_minor_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_minor_axis));
+            * f64::powf(
+                10.,
+                -f64::from(self.scale_factor_of_earth_minor_axis.as_grib_int()),
+            );
         (major, minor)
     }
 
-- 
2.43.0


From 4c7313b0c265e08353180ec1f4f04eb0b288f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 17/32] fix: ignore only zero bits at the end of run length
 data

---
 src/decoder/run_length.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 1e04fb6..0ee4bdc 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -82,8 +82,11 @@ fn rleunpack(
 
     for value in iter {
         // Zero bits which fill up the last octet are not values.
-        if remaining_bits < 8 && value == 0 && expected_len == Some(out_buf.len()) {
-            break;
+        if remaining_bits < 8 && expected_len == Some(out_buf.len()) {
+            let padding_mask = (1u8 << remaining_bits) - 1;
+            if input.last().is_some_and(|byte| byte & padding_mask == 0) {
+                break;
+            }
         }
         remaining_bits -= usize::from(nbit);
 
-- 
2.43.0


From 66cff7c55bbcfe8915a7168462baf194a04f5924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 18/32] fix: report failures in writing the rest of decoded
 data

---
 cli/src/commands/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/commands/decode.rs b/cli/src/commands/decode.rs
index 5050629..2e743c9 100644
--- a/cli/src/commands/decode.rs
+++ b/cli/src/commands/decode.rs
@@ -37,7 +37,8 @@ fn write_output(
 ) -> Result<()> {
     File::create(out_path).and_then(|f| {
         let mut stream = BufWriter::new(f);
-        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))
+        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))?;
+        stream.flush()
     })?;
     Ok(())
 }
-- 
2.43.0


From ddb6c9c851b9fcc1747f83b62dc580b2f371b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 19/32] fix: report too large message indices as errors

---
 cli/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/cli.rs b/cli/src/cli.rs
index 74c0517..aac21d9 100644
--- a/cli/src/cli.rs
+++ b/cli/src/cli.rs
@@ -80,9 +80,9 @@ impl std::str::FromStr for CliMessageIndex {
             )
         })?;
         let message_index = cap.get(1).unwrap();
-        let message_index = usize::from_str(message_index.as_str()).unwrap();
+        let message_index = usize::from_str(message_index.as_str())?;
         let submessage_index = cap.get(2).unwrap();
-        let submessage_index = usize::from_str(submessage_index.as_str()).unwrap();
+        let submessage_index = usize::from_str(submessage_index.as_str())?;
         let inner = (message_index, submessage_index);
         Ok(Self(inner))
     }
-- 
2.43.0


From ba7c17f2f48cc057f1273dedcfb273a9d9ccdc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 20/32] fix: list submessages with more data points than grid
 points

---
 cli/src/commands/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/commands/list.rs b/cli/src/commands/list.rs
index 885d54d..61923b2 100644
--- a/cli/src/commands/list.rs
+++ b/cli/src/commands/list.rs
@@ -123,7 +123,7 @@ impl<R> Display for ListView<'_, R> {
                         forecast_time,
                         surfaces.0,
                         surfaces.1,
-                        num_grid_points - num_points_represented,
+                        num_grid_points.saturating_sub(num_points_represented),
                         num_grid_points,
                         grid_type,
                     )?;
-- 
2.43.0


From 480b85eb4051434ce2b611b0a276dba62b85c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:20 +0000
Subject: [PATCH 21/32] fix: keep a generated table's title on one line

A title with a line break ended the documentation comment early, so that
the generated text was no longer valid Rust.
---
 gen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/src/lib.rs b/gen/src/lib.rs
index f65805f..ffff13e 100644
--- a/gen/src/lib.rs
+++ b/gen/src/lib.rs
@@ -80,7 +80,7 @@ impl CodeTable {
             "\
 /// {}
 const {}: &[& str] = &{:#?};",
-            self.desc,
+            self.desc.replace(['\r', '\n'], " "), // keeps the comment on one line
             name,
             self.to_vec(),
         )
-- 
2.43.0


From 84373259e9765861cb0bc3733eedc9da47b2b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:50 +0000
Subject: [PATCH 22/32] fix: reject parameter-table lines with too many fields

A colon within a description shifted the text into the unit and dropped the
rest of the line without notice.
---
 codegen/src/param_codes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen/src/param_codes.rs b/codegen/src/param_codes.rs
index ae6ccbb..de548c0 100644
--- a/codegen/src/param_codes.rs
+++ b/codegen/src/param_codes.rs
@@ -118,6 +118,9 @@ impl Wgrib2TableEntry {
         let name = words.next()?.to_owned();
         let desc = words.next()?.to_owned();
         let unit = words.next()?.to_owned();
+        if words.next().is_some() {
+            return None;
+        }
         Some(Self {
             discipline,
             master_table_start_ver,
-- 
2.43.0


From 780732cbdaa91143dab102f784074a99db958203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 23/32] fix: reject parameter names that are no identifiers

The macro panicked on a table row whose name cannot be turned into an
identifier, instead of reporting the malformed table.
---
 codegen/src/param_codes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codegen/src/param_codes.rs b/codegen/src/param_codes.rs
index de548c0..a5e77bd 100644
--- a/codegen/src/param_codes.rs
+++ b/codegen/src/param_codes.rs
@@ -121,6 +121,11 @@ impl Wgrib2TableEntry {
         if words.next().is_some() {
             return None;
         }
+        // The name has to be usable as an identifier.
+        let ident_name = normalize_name(&name);
+        syn::parse_str::<proc_macro2::Ident>(&ident_name)
+            .ok()
+            .filter(|ident| *ident == ident_name)?;
         Some(Self {
             discipline,
             master_table_start_ver,
-- 
2.43.0


From cb4067eed6e7e1f14d96c3557c5a01d8a66ae493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:59 +0000
Subject: [PATCH 24/32] fix: take the unit of angles of grid definitions from
 the basic angle and subdivisions

Coordinates of grids whose angles are given in units other than microdegrees
were computed as if the numbers were microdegrees.
---
 src/grid/gaussian.rs | 10 +++++++++-
 src/grid/helpers.rs  | 11 +++++++++++
 src/grid/latlon.rs   | 12 +++++++++++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 60f076b..bc70d67 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -1,5 +1,5 @@
 use super::{
-    helpers::{evenly_spaced_longitudes, RegularGridIterator},
+    helpers::{evenly_spaced_longitudes, to_microdegrees, RegularGridIterator},
     GridPointIndexIterator, ScanningMode,
 };
 use crate::{
@@ -97,6 +97,14 @@ impl GaussianGridDefinition {
         let first_point_lon = read_as!(u32, buf, 20).as_grib_int();
         let last_point_lat = read_as!(u32, buf, 25).as_grib_int();
         let last_point_lon = read_as!(u32, buf, 29).as_grib_int();
+        let (basic_angle, subdivisions) = (read_as!(u32, buf, 8), read_as!(u32, buf, 12));
+        let [first_point_lat, first_point_lon, last_point_lat, last_point_lon] = [
+            first_point_lat,
+            first_point_lon,
+            last_point_lat,
+            last_point_lon,
+        ]
+        .map(|angle| to_microdegrees(angle, basic_angle, subdivisions));
         let i_direction_inc = read_as!(u32, buf, 33);
         let n = read_as!(u32, buf, 37);
         let scanning_mode = read_as!(u8, buf, 41);
diff --git a/src/grid/helpers.rs b/src/grid/helpers.rs
index ed6231c..3e6e9d1 100644
--- a/src/grid/helpers.rs
+++ b/src/grid/helpers.rs
@@ -5,6 +5,17 @@ use super::ScanningMode;
 #[allow(unused_imports)]
 use crate::{GribError, GridPointIndexIterator};
 
+/// Converts an angle of a grid definition, given in units of the basic angle
+/// divided by the number of subdivisions, to microdegrees.
+pub(crate) fn to_microdegrees(val: i32, basic_angle: u32, subdivisions: u32) -> i32 {
+    // The unit is a microdegree if the basic angle is zero or missing.
+    if [0, u32::MAX].contains(&basic_angle) || [0, u32::MAX].contains(&subdivisions) {
+        return val;
+    }
+    let val = f64::from(val) * f64::from(basic_angle) * 1e6 / f64::from(subdivisions);
+    val.round() as i32
+}
+
 pub(crate) fn evenly_spaced_longitudes(
     start_microdegree: i32,
     end_microdegree: i32,
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index de03f65..2752264 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -1,5 +1,7 @@
 use super::{
-    helpers::{evenly_spaced_degrees, evenly_spaced_longitudes, RegularGridIterator},
+    helpers::{
+        evenly_spaced_degrees, evenly_spaced_longitudes, to_microdegrees, RegularGridIterator,
+    },
     GridPointIndexIterator, ScanningMode,
 };
 use crate::{
@@ -150,6 +152,14 @@ impl LatLonGridDefinition {
         let first_point_lon = read_as!(u32, buf, 20).as_grib_int();
         let last_point_lat = read_as!(u32, buf, 25).as_grib_int();
         let last_point_lon = read_as!(u32, buf, 29).as_grib_int();
+        let (basic_angle, subdivisions) = (read_as!(u32, buf, 8), read_as!(u32, buf, 12));
+        let [first_point_lat, first_point_lon, last_point_lat, last_point_lon] = [
+            first_point_lat,
+            first_point_lon,
+            last_point_lat,
+            last_point_lon,
+        ]
+        .map(|angle| to_microdegrees(angle, basic_angle, subdivisions));
         let scanning_mode = read_as!(u8, buf, 41);
         Self {
             ni,
-- 
2.43.0


From 2fffefc86e20744713de55ef5bb14bfe80864a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:54 +0000
Subject: [PATCH 25/32] fix: compute latitudes of Gaussian grids that have some
 of the parallels only

Rows of such grids were given the latitudes of a global grid with the same
number of rows.
---
 src/grid/gaussian.rs | 48 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index bc70d67..f4d3cf1 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -21,6 +21,9 @@ pub struct GaussianGridDefinition {
 }
 
 const MAX_ITER: usize = 10;
+// Computing a latitude takes time proportional to the number of parallels.
+const MAX_PARALLELS: usize = 100_000;
+const ROOT_FINDING_ERROR: &str = "finding root for Legendre polynomial failed";
 
 impl GaussianGridDefinition {
     /// Returns the shape of the grid, i.e. a tuple of the number of grids in
@@ -65,8 +68,7 @@ impl GaussianGridDefinition {
         }
 
         let ij = self.ij()?;
-        let mut lat = compute_gaussian_latitudes_in_degrees(self.nj as usize)
-            .map_err(|e| GribError::Unknown(e.to_owned()))?;
+        let mut lat = self.compute_latitudes()?;
         if self.scanning_mode.scans_positively_for_j() {
             lat.reverse()
         };
@@ -90,6 +92,39 @@ impl GaussianGridDefinition {
         !(lat_increases ^ self.scanning_mode.scans_positively_for_j())
     }
 
+    // Computes latitudes of rows of the grid in degrees, from north to south.
+    fn compute_latitudes(&self) -> Result<Vec<f64>, GribError> {
+        let nj = self.nj as usize;
+        let div = (self.n as usize).saturating_mul(2);
+        if nj == div {
+            return compute_gaussian_latitudes_in_degrees(div)
+                .map_err(|e| GribError::Unknown(e.to_owned()));
+        }
+
+        // The grid has only some of the parallels, those between the first and last grid points.
+        if div > MAX_PARALLELS {
+            return Err(GribError::NotSupported(format!(
+                "{nj} rows out of {div} parallels"
+            )));
+        }
+        let row = |lat: i32| {
+            let colat = 90.0 - f64::from(lat) * 1e-6;
+            (colat * (div as f64 + 0.5) / 180.0 - 0.75).round()
+        };
+        let start = row(self.first_point_lat.max(self.last_point_lat));
+        let end = row(self.first_point_lat.min(self.last_point_lat)) + 1.0;
+        if start < 0.0 || end > div as f64 || end - start != nj as f64 {
+            return Err(GribError::InvalidValueError(
+                "Latitudes for first/last grid points are not consistent with number of parallels"
+                    .to_owned(),
+            ));
+        }
+        legendre_roots(div, start as usize..end as usize)
+            .map(|x| x.map(|i| i.asin().to_degrees()))
+            .collect::<Option<_>>()
+            .ok_or_else(|| GribError::Unknown(ROOT_FINDING_ERROR.to_owned()))
+    }
+
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
         let ni = read_as!(u32, buf, 0);
         let nj = read_as!(u32, buf, 4);
@@ -126,7 +161,7 @@ fn compute_gaussian_latitudes_in_degrees(div: usize) -> Result<Vec<f64>, &'stati
     let lat: Option<Vec<_>> = compute_gaussian_latitudes(div)
         .map(|x| x.map(|i| i.to_degrees()))
         .collect();
-    lat.ok_or("finding root for Legendre polynomial failed")
+    lat.ok_or(ROOT_FINDING_ERROR)
 }
 
 /// Computes Gaussian latitudes in radians.
@@ -166,9 +201,14 @@ pub fn compute_gaussian_latitudes(div: usize) -> impl Iterator<Item = Option<f64
 //   Gauss-Legendre quadrature, Journal of Computational and Applied Mathematics,
 //   Volume 59, Issue 2, 1995, Pages 245-252, ISSN 0377-0427, https://doi.org/10.1016/0377-0427(94)00030-5.
 fn legendre_roots_iterator(n: usize) -> impl Iterator<Item = Option<f64>> {
+    legendre_roots(n, 0..n)
+}
+
+// Finds only the roots whose positions in descending order are in `range`.
+fn legendre_roots(n: usize, range: std::ops::Range<usize>) -> impl Iterator<Item = Option<f64>> {
     let nf = n as f64;
     let coeff = 1.0_f64 - 1.0 / (8.0 * nf * nf) + 1.0 / (8.0 * nf * nf * nf);
-    (0..n).map(move |i| {
+    range.map(move |i| {
         let guess = coeff * ((4 * i + 3) as f64 * std::f64::consts::PI / (4 * n + 2) as f64).cos();
         find_root(guess, |x| {
             let (p_prev, p) = legendre_polynomial(n, x);
-- 
2.43.0


From 1d613e4f8906eb846c2a2630f82add423d550d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:28 +0000
Subject: [PATCH 26/32] fix: refuse fields of more than 32 bits in simple and
 PNG packing

They were decoded from their lower 32 bits (or fewer).
---
 src/decoder/png.rs    | 2 +-
 src/decoder/simple.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 13eb8f6..dd795a7 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -37,7 +37,7 @@ pub(crate) fn decode(
     if u64::from(width) * u64::from(height) != target.num_points_encoded as u64 {
         return Err(GribError::DecodeError(DecodeError::LengthMismatch));
     }
-    if reader.info().bits_per_pixel() != nbit {
+    if reader.info().bits_per_pixel() != nbit || nbit > 32 {
         return Err(GribError::DecodeError(DecodeError::PngDecodeError(
             PngDecodeError::NotSupported,
         )));
diff --git a/src/decoder/simple.rs b/src/decoder/simple.rs
index b7aeecc..da37987 100644
--- a/src/decoder/simple.rs
+++ b/src/decoder/simple.rs
@@ -56,6 +56,10 @@ pub(crate) fn decode(
             param.zero_bit_reference_value(),
             target.num_points_encoded,
         ))
+    } else if u32::from(param.nbit) > u32::BITS {
+        return Err(GribError::DecodeError(
+            SimplePackingDecodeError::NotSupported.into(),
+        ));
     } else {
         let iter = NBitwiseIterator::new(&target.sect7_payload, usize::from(param.nbit));
         let iter = SimplePackingDecodeIterator::new(iter, &param);
-- 
2.43.0


From 39ee2c32957691d3c424370d2c5fcc518625c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 27/32] fix: read the decimal scale factor of run-length
 packing as a signed number

Negative factors were taken for large positive ones, so that every value
came out as zero.
---
 src/decoder/run_length.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 0ee4bdc..0cdade3 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -1,7 +1,7 @@
 use crate::{
     decoder::{stream::NBitwiseIterator, DecodeError, Grib2SubmessageDecoder},
     error::*,
-    helpers::read_as,
+    helpers::{read_as, GribInt},
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -19,7 +19,7 @@ pub(crate) fn decode(
     let nbit = read_as!(u8, sect5_data, 6);
     let maxv = read_as!(u16, sect5_data, 7);
     let max_level = read_as!(u16, sect5_data, 9);
-    let num_digits = read_as!(u8, sect5_data, 11);
+    let num_digits = read_as!(u8, sect5_data, 11).as_grib_int();
 
     if sect5_data.len() < 12 + std::mem::size_of::<u16>() * usize::from(max_level) {
         return Err(GribError::DecodeError(DecodeError::LengthMismatch));
-- 
2.43.0


From f900f99668ab2db3840cbed8ccfa1f5c96c0c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:02 +0000
Subject: [PATCH 28/32] fix: let several submessages be held at once

Each submessage kept the file's reader mutably borrowed, so that taking a
second one while holding the first panicked; even last() and collect() on the
iterator did.
---
 src/context.rs | 6 +++---
 src/decoder.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1937cc9..b5b56d7 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use std::{
-    cell::{RefCell, RefMut},
+    cell::RefCell,
     collections::HashSet,
     fmt::{self, Display, Formatter},
     io::{Cursor, Read, Seek},
@@ -321,7 +321,7 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
                 self.new_submessage_section(submessage_index.6)?,
                 self.new_submessage_section(submessage_index.7)?,
                 self.new_submessage_section(submessage_index.8)?,
-                self.context.reader.borrow_mut(),
+                &self.context.reader,
             ),
         ))
     }
@@ -362,7 +362,7 @@ pub struct SubMessage<'a, R>(
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
-    pub(crate) RefMut<'a, R>,
+    pub(crate) &'a RefCell<R>,
 );
 
 impl<R> SubMessage<'_, R> {
diff --git a/src/decoder.rs b/src/decoder.rs
index bab5e24..63790c3 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -76,7 +76,7 @@ impl Grib2SubmessageDecoder {
 
     /// Sets up a decoder for grid point values of `submessage`.
     pub fn from<R: Grib2Read>(submessage: SubMessage<R>) -> Result<Self, GribError> {
-        let mut reader = submessage.9;
+        let mut reader = submessage.9.borrow_mut();
         let sect5 = submessage.5.body;
         let sect6 = submessage.6.body;
         let sect7 = submessage.7.body;
-- 
2.43.0


From a3dda2e69fd495802198c7c8042ea57b608566b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:53 +0000
Subject: [PATCH 29/32] fix: reject message sizes that do not fit in usize

---
 src/reader.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7aed8e8..b463bbd 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -92,18 +92,14 @@ where
             .transpose()?
             .and_then(|(offset, indicator)| {
                 let offset = self.whole_size + offset;
-                let message_size = indicator.total_length as usize;
-                let (whole_size, rest_size) = match (
-                    offset.checked_add(message_size),
-                    message_size.checked_sub(SECT0_IS_SIZE),
-                ) {
-                    (Some(whole_size), Some(rest_size)) => (whole_size, rest_size),
-                    _ => {
-                        return Err(ParseError::ReadError(format!(
-                            "invalid message size: {message_size}"
-                        )))
-                    }
-                };
+                let message_size = indicator.total_length;
+                // The size may not fit in `usize`.
+                let sizes = usize::try_from(message_size)
+                    .ok()
+                    .and_then(|size| offset.checked_add(size).zip(size.checked_sub(SECT0_IS_SIZE)));
+                let (whole_size, rest_size) = sizes.ok_or_else(|| {
+                    ParseError::ReadError(format!("invalid message size: {message_size}"))
+                })?;
                 self.whole_size = whole_size;
                 self.rest_size = rest_size;
                 Ok(SectionInfo {
-- 
2.43.0


From 0d70dfc1d79777202b0be60b16f31e432b8bfb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:54 +0000
Subject: [PATCH 30/32] fix: compare numbers of grid points without overflow on
 32-bit platforms

---
 src/context.rs | 8 ++++----
 src/grid.rs    | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index b5b56d7..9e1af0b 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -625,8 +625,8 @@ Data Representation:                    {}
         let grid_def = self.grid_def();
         let num_defined = grid_def.num_points() as usize;
         let ij = GridDefinitionTemplateValues::try_from(grid_def)?.ij()?;
-        let (num_decoded, _) = ij.size_hint();
-        if num_defined == num_decoded {
+        let (num_decoded, max_decoded) = ij.size_hint();
+        if max_decoded == Some(num_defined) {
             Ok(ij)
         } else {
             Err(GribError::InvalidValueError(format!(
@@ -675,8 +675,8 @@ Data Representation:                    {}
         let num_defined = grid_def.num_points() as usize;
         let grid = GridDefinitionTemplateValues::try_from(grid_def)?;
         // Checked before the computation since the grid may be inconsistently huge.
-        let (num_decoded, _) = grid.ij()?.size_hint();
-        if num_defined == num_decoded {
+        let (num_decoded, max_decoded) = grid.ij()?.size_hint();
+        if max_decoded == Some(num_defined) {
             grid.latlons()
         } else {
             Err(GribError::InvalidValueError(format!(
diff --git a/src/grid.rs b/src/grid.rs
index 69bd4fc..ec6c884 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -108,8 +108,11 @@ impl Iterator for GridPointIndexIterator {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = (self.major_len - self.major_pos) * self.minor_len - self.minor_pos;
-        (len, Some(len))
+        // The number of points of an inconsistently huge grid may not fit in `usize`.
+        match (self.major_len - self.major_pos).checked_mul(self.minor_len) {
+            Some(len) => (len - self.minor_pos, Some(len - self.minor_pos)),
+            None => (usize::MAX, None),
+        }
     }
 }
 
-- 
2.43.0


From 985a1a2c81290376091fdbb268541a2266e5aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:01 +0000
Subject: [PATCH 31/32] fix: do not compute rows and columns of grids without
 points

---
 src/grid/gaussian.rs | 5 +++++
 src/grid/latlon.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index f4d3cf1..151ecea 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -68,6 +68,11 @@ impl GaussianGridDefinition {
         }
 
         let ij = self.ij()?;
+        if self.ni == 0 || self.nj == 0 {
+            // The other number may be inconsistently huge.
+            return Ok(RegularGridIterator::new(Vec::new(), Vec::new(), ij));
+        }
+
         let mut lat = self.compute_latitudes()?;
         if self.scanning_mode.scans_positively_for_j() {
             lat.reverse()
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index 2752264..8cf4117 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -121,6 +121,11 @@ impl LatLonGridDefinition {
         }
 
         let ij = self.ij()?;
+        if self.ni == 0 || self.nj == 0 {
+            // The other number may be inconsistently huge.
+            return Ok(RegularGridIterator::new(Vec::new(), Vec::new(), ij));
+        }
+
         let lat = evenly_spaced_degrees(
             self.first_point_lat as f32,
             self.last_point_lat as f32,
-- 
2.43.0


From d03542db37183e1fe6d4a5cd908fd4cbdd3a723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:03 +0000
Subject: [PATCH 32/32] fix: do not let lengths of group descriptors wrap on
 32-bit platforms

---
 src/decoder/complex.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 93fcf80..d2c3220 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -134,7 +134,8 @@ fn decode_complex_packing(
     fn get_octet_length(nbit: u8, ngroup: u32) -> usize {
         let total_bit = u64::from(ngroup) * u64::from(nbit);
         let total_octet = (total_bit + 0b111) >> 3;
-        total_octet as usize
+        // The length may not fit in `usize`.
+        usize::try_from(total_octet).unwrap_or(usize::MAX)
     }
 
     if nbit > 32 || complex_param.group_width_nbit > 32 || complex_param.group_len_nbit > 32 {
@@ -142,11 +143,16 @@ fn decode_complex_packing(
     }
 
     let params_end_octet = sect7_offset;
-    let group_refs_end_octet = params_end_octet + get_octet_length(nbit, complex_param.ngroup);
-    let group_widths_end_octet = group_refs_end_octet
-        + get_octet_length(complex_param.group_width_nbit, complex_param.ngroup);
-    let group_lens_end_octet = group_widths_end_octet
-        + get_octet_length(complex_param.group_len_nbit, complex_param.ngroup);
+    let group_refs_end_octet =
+        params_end_octet.saturating_add(get_octet_length(nbit, complex_param.ngroup));
+    let group_widths_end_octet = group_refs_end_octet.saturating_add(get_octet_length(
+        complex_param.group_width_nbit,
+        complex_param.ngroup,
+    ));
+    let group_lens_end_octet = group_widths_end_octet.saturating_add(get_octet_length(
+        complex_param.group_len_nbit,
+        complex_param.ngroup,
+    ));
     if complex_param.ngroup as usize > num_points || group_lens_end_octet > sect7_data.len() {
         return Err(ComplexPackingDecodeError::LengthMismatch);
     }
-- 
2.43.0

