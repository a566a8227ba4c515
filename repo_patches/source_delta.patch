From 8b96c2ca08f81e2742c110e3cbef28ba4825ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 01/19] fix: length of utf-16 data is its number of bytes, not
 of code units

---
 src/atom/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index c617a8e..ed084a0 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -133,7 +133,7 @@ impl Data {
         (match self {
             Self::Reserved(v) => v.len(),
             Self::Utf8(s) => s.len(),
-            Self::Utf16(s) => s.encode_utf16().count(),
+            Self::Utf16(s) => s.encode_utf16().count() * 2,
             Self::Jpeg(v) => v.len(),
             Self::Png(v) => v.len(),
             Self::BeSigned(v) => v.len(),
-- 
2.43.0


From 4801809d9cfe4cfd25d1768eabd43b7ddd332fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 02/19] fix: reject invalid extended atom lengths

---
 src/atom/head.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index a0e2174..c5bfd02 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -118,6 +118,10 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
 
     if len == 1 {
         match reader.read_u64() {
+            Ok(l) if l < 16 || l > i64::MAX as u64 => Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Read invalid extended length of '{}': {}", ident, l),
+            )),
             Ok(l) => Ok(Head::new(true, l, ident)),
             Err(e) => Err(crate::Error::new(
                 ErrorKind::Io(e),
-- 
2.43.0


From 608e4e479d46a14bec0ce332b68af116a0c594c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 03/19] fix: data, mean and name atoms too short for their
 header are an error

---
 src/atom/head.rs | 10 ++++++++++
 src/atom/mod.rs  |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index c5bfd02..15a0b4e 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -138,6 +138,16 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
     }
 }
 
+/// Returns the content length of the atom that remains after the parsed bytes.
+pub fn remaining_len(head: &Head, parsed_bytes: u64) -> crate::Result<u64> {
+    head.content_len().checked_sub(parsed_bytes).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Content of '{}' is too short: {}", head.fourcc(), head.content_len()),
+        )
+    })
+}
+
 pub fn write_head(writer: &mut impl Write, head: Head) -> crate::Result<()> {
     if head.ext {
         writer.write_all(&u32::to_be_bytes(1))?;
diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 5fb5b41..c569c85 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -210,7 +210,7 @@ impl AtomData {
                     // Skipping 4 byte locale indicator
                     reader.seek(SeekFrom::Current(4))?;
 
-                    data.push(Data::parse(reader, datatype, head.content_len() - 8)?);
+                    data.push(Data::parse(reader, datatype, remaining_len(&head, 8)?)?);
                 }
                 MEAN => {
                     let (version, _) = parse_full_head(reader)?;
@@ -221,7 +221,7 @@ impl AtomData {
                         ));
                     }
 
-                    mean = Some(reader.read_utf8(head.content_len() - 4)?);
+                    mean = Some(reader.read_utf8(remaining_len(&head, 4)?)?);
                 }
                 NAME => {
                     let (version, _) = parse_full_head(reader)?;
@@ -232,7 +232,7 @@ impl AtomData {
                         ));
                     }
 
-                    name = Some(reader.read_utf8(head.content_len() - 4)?);
+                    name = Some(reader.read_utf8(remaining_len(&head, 4)?)?);
                 }
                 _ => {
                     reader.seek(SeekFrom::Current(head.content_len() as i64))?;
-- 
2.43.0


From 50bdd13be237362115dca2739683ed2700109b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 04/19] fix: movie header with time scale 0 is an error, long
 durations don't overflow

---
 src/atom/mvhd.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/atom/mvhd.rs b/src/atom/mvhd.rs
index d2a9c4b..dd84d55 100644
--- a/src/atom/mvhd.rs
+++ b/src/atom/mvhd.rs
@@ -33,7 +33,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u32()? as u64;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scaled_duration(duration, timescale)?;
             }
             1 => {
                 // # Version 1
@@ -48,7 +48,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u64()?;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scaled_duration(duration, timescale)?;
             }
             v => {
                 return Err(crate::Error::new(
@@ -63,3 +63,15 @@ impl ParseAtom for Mvhd {
         Ok(mvhd)
     }
 }
+
+fn scaled_duration(duration: u64, timescale: u64) -> crate::Result<Duration> {
+    if timescale == 0 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Time scale of movie header (mvhd) is 0".to_owned(),
+        ));
+    }
+
+    let nanos = (duration % timescale) * 1_000_000_000 / timescale;
+    Ok(Duration::new(duration / timescale, nanos as u32))
+}
-- 
2.43.0


From cceb2a9b7440573125de75cf2273b0a148009d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 05/19] fix: elementary stream descriptors too short for their
 content are an error

---
 src/atom/mp4a.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 530482f..2d48668 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -127,7 +127,12 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
         ));
     }
 
-    let max_len = size.content_len() - 4 - head_len;
+    let max_len = size.content_len().checked_sub(4 + head_len).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Elementary stream descriptor exceeds esds atom".to_owned(),
+        )
+    })?;
     parse_es_desc(reader, info, min(desc_len, max_len))?;
 
     Ok(())
@@ -221,7 +226,13 @@ fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
     let channel_config = ((num >> 3) & 0x0F) as u8;
     info.channel_config = ChannelConfig::try_from(channel_config).ok();
 
-    reader.seek(SeekFrom::Current((len - 2) as i64))?;
+    let remaining_len = len.checked_sub(2).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Decoder specific descriptor is too short".to_owned(),
+        )
+    })?;
+    reader.seek(SeekFrom::Current(remaining_len as i64))?;
     Ok(())
 }
 
-- 
2.43.0


From 08532c6cdc12edb343936b52fa0ff6b538c041d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 06/19] fix: content that exceeds the bounds of its atom is an
 error

---
 src/atom/head.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index 15a0b4e..32341f0 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -233,7 +233,12 @@ pub fn find_bounds(reader: &mut impl Seek, size: Size) -> crate::Result<AtomBoun
 
 pub fn seek_to_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
     let current = reader.seek(SeekFrom::Current(0))?;
-    let diff = bounds.end() - current;
+    let diff = bounds.end().checked_sub(current).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Content exceeds the bounds of its atom".to_owned(),
+        )
+    })?;
     reader.seek(SeekFrom::Current(diff as i64))?;
     Ok(())
 }
-- 
2.43.0


From 8a612455a1cfe98042f03461b9540c597cf27d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 07/19] fix: don't allocate declared lengths before the data
 has been read

---
 src/atom/data.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index ed084a0..02ad3c2 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -465,8 +465,14 @@ pub trait ReadData: Read {
 
     /// Attempts to read 8 bit unsigned integers from the reader to a vector of size length.
     fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let mut buf = Vec::new();
+        let read_len = Read::take(self, len).read_to_end(&mut buf)?;
+        if (read_len as u64) < len {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "failed to read the declared length",
+            ));
+        }
         Ok(buf)
     }
 
@@ -479,9 +485,7 @@ pub trait ReadData: Read {
 
     /// Attempts to read a utf-16 string from the reader.
     fn read_utf16(&mut self, len: u64) -> crate::Result<String> {
-        let mut buf = vec![0u8; len as usize];
-
-        self.read_exact(&mut buf)?;
+        let buf = self.read_u8_vec(len)?;
 
         let data: Vec<u16> =
             buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
-- 
2.43.0


From af6e3702d5e5cab5d33bc02cb30f0ef93eb5b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 08/19] fix: refuse to write to files with atoms that don't
 nest

---
 src/atom/mdia.rs | 2 ++
 src/atom/meta.rs | 2 ++
 src/atom/minf.rs | 2 ++
 src/atom/mod.rs  | 6 ++++++
 src/atom/moov.rs | 2 ++
 src/atom/stbl.rs | 2 ++
 src/atom/trak.rs | 2 ++
 src/atom/udta.rs | 2 ++
 8 files changed, 20 insertions(+)

diff --git a/src/atom/mdia.rs b/src/atom/mdia.rs
index a8da63b..ee49fea 100644
--- a/src/atom/mdia.rs
+++ b/src/atom/mdia.rs
@@ -57,6 +57,8 @@ impl FindAtom for Mdia {
             parsed_bytes += head.len();
         }
 
+        seek_to_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, minf })
     }
 }
diff --git a/src/atom/meta.rs b/src/atom/meta.rs
index 75f0d75..d2c4b7f 100644
--- a/src/atom/meta.rs
+++ b/src/atom/meta.rs
@@ -120,6 +120,8 @@ impl FindAtom for Meta<'_> {
             parsed_bytes += head.len();
         }
 
+        seek_to_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, hdlr, ilst })
     }
 }
diff --git a/src/atom/minf.rs b/src/atom/minf.rs
index 125d8c6..4b6ef19 100644
--- a/src/atom/minf.rs
+++ b/src/atom/minf.rs
@@ -57,6 +57,8 @@ impl FindAtom for Minf {
             parsed_bytes += head.len();
         }
 
+        seek_to_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, stbl })
     }
 }
diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index c569c85..10c513a 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -448,6 +448,12 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
+    if moov.end() > old_file_len {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Movie (moov) atom exceeds the end of the file".to_owned(),
+        ));
+    }
     let moved_data_len = old_file_len - moved_data_start;
     let mut moved_data = Vec::with_capacity(moved_data_len as usize);
     reader.seek(SeekFrom::Start(moved_data_start))?;
diff --git a/src/atom/moov.rs b/src/atom/moov.rs
index 7ce7835..6e33e4e 100644
--- a/src/atom/moov.rs
+++ b/src/atom/moov.rs
@@ -86,6 +86,8 @@ impl FindAtom for Moov<'_> {
             parsed_bytes += head.len();
         }
 
+        seek_to_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, trak, udta })
     }
 }
diff --git a/src/atom/stbl.rs b/src/atom/stbl.rs
index 5f99642..35b6297 100644
--- a/src/atom/stbl.rs
+++ b/src/atom/stbl.rs
@@ -62,6 +62,8 @@ impl FindAtom for Stbl {
             parsed_bytes += head.len();
         }
 
+        seek_to_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, stco, co64 })
     }
 }
diff --git a/src/atom/trak.rs b/src/atom/trak.rs
index 8caabd5..fc04b38 100644
--- a/src/atom/trak.rs
+++ b/src/atom/trak.rs
@@ -57,6 +57,8 @@ impl FindAtom for Trak {
             parsed_bytes += head.len();
         }
 
+        seek_to_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, mdia })
     }
 }
diff --git a/src/atom/udta.rs b/src/atom/udta.rs
index 051ca7d..b8a9bd3 100644
--- a/src/atom/udta.rs
+++ b/src/atom/udta.rs
@@ -79,6 +79,8 @@ impl FindAtom for Udta<'_> {
             parsed_bytes += head.len();
         }
 
+        seek_to_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, meta })
     }
 }
-- 
2.43.0


From 0651943e6782192d3872d9338e3774800f33fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 09/19] fix: write to the movie atom that is going to be read

---
 src/atom/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 10c513a..dcf540b 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -368,7 +368,8 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         let head = parse_head(reader)?;
 
         match head.fourcc() {
-            MOVIE => moov = Some(Moov::find(reader, head.size())?),
+            // reading also considers the first movie atom
+            MOVIE if moov.is_none() => moov = Some(Moov::find(reader, head.size())?),
             MEDIA_DATA => mdat = Some(Mdat::find(reader, head.size())?),
             _ => {
                 reader.seek(SeekFrom::Current(head.content_len() as i64))?;
-- 
2.43.0


From d2e0acebc0534af9944b0d4c4d10e3a57b08ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 10/19] fix: don't modify the file before all chunk offset
 tables have been read

---
 src/atom/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index dcf540b..1a637bb 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -460,9 +460,8 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     reader.seek(SeekFrom::Start(moved_data_start))?;
     reader.read_to_end(&mut moved_data)?;
 
-    let mut writer = BufWriter::new(file);
-
-    // adjusting sample table chunk offsets
+    // calculating sample table chunk offsets
+    let mut chunk_offsets = Vec::new();
     if mdat_pos > moov.pos() {
         let stbl_atoms = moov.trak.iter().filter_map(|a| {
             a.mdia.as_ref().and_then(|a| a.minf.as_ref()).and_then(|a| a.stbl.as_ref())
@@ -473,27 +472,35 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Stco::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::with_capacity(chunk_offset.offsets.len() * 4);
                 for co in chunk_offset.offsets.iter() {
                     let new_offset = (*co as i64 + len_diff) as u32;
-                    writer.write_all(&u32::to_be_bytes(new_offset))?;
+                    table.extend_from_slice(&u32::to_be_bytes(new_offset));
                 }
-                writer.flush()?;
+                chunk_offsets.push((chunk_offset.table_pos, table));
             }
             if let Some(a) = &stbl.co64 {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Co64::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::with_capacity(chunk_offset.offsets.len() * 8);
                 for co in chunk_offset.offsets.iter() {
                     let new_offset = (*co as i64 + len_diff) as u64;
-                    writer.write_all(&u64::to_be_bytes(new_offset))?;
+                    table.extend_from_slice(&u64::to_be_bytes(new_offset));
                 }
-                writer.flush()?;
+                chunk_offsets.push((chunk_offset.table_pos, table));
             }
         }
     }
 
+    let mut writer = BufWriter::new(file);
+
+    // adjusting sample table chunk offsets
+    for (table_pos, table) in chunk_offsets.iter() {
+        writer.seek(SeekFrom::Start(*table_pos))?;
+        writer.write_all(table)?;
+    }
+
     // update existing ilst hierarchy atom lengths
     for a in update_atoms.iter().rev() {
         let new_len = a.len() as i64 + len_diff;
-- 
2.43.0


From acb43c964b9d5ef0a471e2e4f925bdd4cd8b2e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 11/19] fix: only adjust chunk offsets of moved data, refuse
 unrepresentable ones

---
 src/atom/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 1a637bb..1502770 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -474,7 +474,8 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 let mut table = Vec::with_capacity(chunk_offset.offsets.len() * 4);
                 for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u32;
+                    let new_offset = move_offset(*co as u64, moved_data_start, len_diff)?;
+                    let new_offset = u32::try_from(new_offset).map_err(|_| offset_error())?;
                     table.extend_from_slice(&u32::to_be_bytes(new_offset));
                 }
                 chunk_offsets.push((chunk_offset.table_pos, table));
@@ -485,7 +486,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 let mut table = Vec::with_capacity(chunk_offset.offsets.len() * 8);
                 for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u64;
+                    let new_offset = move_offset(*co, moved_data_start, len_diff)?;
                     table.extend_from_slice(&u64::to_be_bytes(new_offset));
                 }
                 chunk_offsets.push((chunk_offset.table_pos, table));
@@ -539,6 +540,27 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     Ok(())
 }
 
+/// Returns the new chunk offset after data starting at the position has been moved.
+fn move_offset(offset: u64, moved_data_start: u64, len_diff: i64) -> crate::Result<u64> {
+    if offset < moved_data_start {
+        return Ok(offset);
+    }
+
+    let new_offset = if len_diff < 0 {
+        offset.checked_sub(-len_diff as u64)
+    } else {
+        offset.checked_add(len_diff as u64)
+    };
+    new_offset.ok_or_else(offset_error)
+}
+
+fn offset_error() -> crate::Error {
+    crate::Error::new(
+        crate::ErrorKind::Parsing,
+        "Chunk offset can't be represented after moving the media data".to_owned(),
+    )
+}
+
 /// Attempts to dump the metadata atoms to the writer. This doesn't include a complete MPEG-4
 /// container hierarchy and won't result in a usable file.
 pub(crate) fn dump_tag_to(writer: &mut impl Write, atoms: &[AtomData]) -> crate::Result<()> {
-- 
2.43.0


From c9c93a8f8a911d118139c6b65f0f85e73daadcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 12/19] fix: setting or adding no data doesn't create atoms
 without data

---
 src/tag/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/tag/mod.rs b/src/tag/mod.rs
index eed2963..49ee3c5 100644
--- a/src/tag/mod.rs
+++ b/src/tag/mod.rs
@@ -1269,14 +1269,14 @@ impl Tag {
         ident: (impl Ident + Into<DataIdent>),
         data: impl IntoIterator<Item = Data>,
     ) {
+        let data: Vec<Data> = data.into_iter().collect();
+        if data.is_empty() {
+            return self.remove_data_of(&ident);
+        }
+
         match self.atoms.iter_mut().find(|a| ident == a.ident) {
-            Some(a) => {
-                a.data.clear();
-                a.data.extend(data);
-            }
-            None => {
-                self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect()));
-            }
+            Some(a) => a.data = data,
+            None => self.atoms.push(AtomData::new(ident.into(), data)),
         }
     }
 
@@ -1333,7 +1333,12 @@ impl Tag {
     ) {
         match self.atoms.iter_mut().find(|a| ident == a.ident) {
             Some(a) => a.data.extend(data),
-            None => self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect())),
+            None => {
+                let data: Vec<Data> = data.into_iter().collect();
+                if !data.is_empty() {
+                    self.atoms.push(AtomData::new(ident.into(), data));
+                }
+            }
         }
     }
 
-- 
2.43.0


From 2451ec0fa508cfee7e6b39208c3c55b5a7ef8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 13/19] fix: removing the last half of a track or disc number
 removes the atom

---
 src/tag/tuple.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 1a85f21..7179619 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -73,7 +73,7 @@ impl Tag {
     pub fn remove_track_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -82,7 +82,7 @@ impl Tag {
     pub fn remove_total_tracks(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -169,7 +169,7 @@ impl Tag {
     pub fn remove_disc_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_disc(),
         }
     }
@@ -178,7 +178,7 @@ impl Tag {
     pub fn remove_total_discs(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_disc(),
         }
     }
-- 
2.43.0


From d7979b121bf4e5f9432bca988dedf542a562b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 14/19] fix: the genre is the first of all genres and taking it
 removes custom genres

---
 src/tag/genre.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index baaa91d..4b4877d 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -148,11 +148,7 @@ impl Tag {
 
     /// Returns the first genre (`gnre` or `©gen`).
     pub fn genre(&self) -> Option<&str> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g);
-        }
-
-        self.custom_genre()
+        self.genres().next()
     }
 
     /// Removes all custom genres (`©gen`) and returns all genres, first standard genres (`gnre`)
@@ -168,11 +164,7 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g.to_owned());
-        }
-
-        self.take_custom_genre()
+        self.take_genres().next()
     }
 
     /// Sets the custom genre (`©gen`). This will remove all other standard or custom genres.
-- 
2.43.0


From 2f02aaecf316de93297dd4e1d7e8794f5ed6805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 15/19] fix: misspelled standard genres

---
 src/tag/genre.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index 4b4877d..b022218 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -12,7 +12,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Disco",
     "Funk",
     "Grunge",
-    "Hip,-Hop",
+    "Hip-Hop",
     "Jazz",
     "Metal",
     "New Age",
@@ -65,7 +65,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Comedy",
     "Cult",
     "Gangsta",
-    "Top 41",
+    "Top 40",
     "Christian Rap",
     "Pop/Funk",
     "Jungle",
@@ -76,7 +76,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Rave",
     "Show tunes",
     "Trailer",
-    "Lo,-Fi",
+    "Lo-Fi",
     "Tribal",
     "Acid Punk",
     "Acid Jazz",
-- 
2.43.0


From 1056ec2f6b20952c0c419313acc8495d6b1bcb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 16/19] fix: adjust chunk offset tables that are moved along
 with the metadata

---
 src/atom/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 1502770..ad0ff44 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -498,8 +498,14 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // adjusting sample table chunk offsets
     for (table_pos, table) in chunk_offsets.iter() {
-        writer.seek(SeekFrom::Start(*table_pos))?;
-        writer.write_all(table)?;
+        if *table_pos >= moved_data_start {
+            // the table itself is part of the moved data
+            let start = (*table_pos - moved_data_start) as usize;
+            moved_data[start..start + table.len()].copy_from_slice(table);
+        } else {
+            writer.seek(SeekFrom::Start(*table_pos))?;
+            writer.write_all(table)?;
+        }
     }
 
     // update existing ilst hierarchy atom lengths
-- 
2.43.0


From 4a04fa9c481c3af06860cd10a6796a3827fcb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 17/19] fix: setting the total doesn't turn an incomplete
 number into a number

---
 src/tag/tuple.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 7179619..ec61b1b 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -207,6 +207,10 @@ fn set_number(vec: &mut Vec<u8>, number: u16) {
 }
 
 fn set_total(vec: &mut Vec<u8>, total: u16) {
+    if vec.len() < 4 {
+        // There is no number, don't turn the first byte of an incomplete one into a number.
+        vec.truncate(2);
+    }
     set_be_int!(vec, 4, total, u16);
 }
 
-- 
2.43.0


From 24f373f5c1cae8decd9acd980a41174d9e551995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 18/19] fix: write items and values longer than 4 GiB with
 extended lengths

Lengths of item, data, mean and name atoms were truncated to 32 bits.
---
 src/atom/mod.rs | 45 ++++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index ad0ff44..a25bf93 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -167,18 +167,21 @@ impl AtomData {
 
     /// Returns the external length of the atom in bytes.
     pub fn len(&self) -> u64 {
-        let parent_len = 8;
-        let data_len: u64 = self.data.iter().map(|d| 16 + d.len()).sum();
+        self.size().len()
+    }
 
-        match &self.ident {
-            DataIdent::Fourcc(_) => parent_len + data_len,
+    fn size(&self) -> Size {
+        let data_len: u64 = self.data.iter().map(|d| Size::from(8 + d.len()).len()).sum();
+
+        Size::from(match &self.ident {
+            DataIdent::Fourcc(_) => data_len,
             DataIdent::Freeform { mean, name } => {
-                let mean_len = 12 + mean.len() as u64;
-                let name_len = 12 + name.len() as u64;
+                let mean_len = Size::from(4 + mean.len() as u64).len();
+                let name_len = Size::from(4 + name.len() as u64).len();
 
-                parent_len + mean_len + name_len + data_len
+                mean_len + name_len + data_len
             }
-        }
+        })
     }
 
     /// Returns whether the inner data atom is empty.
@@ -259,35 +262,23 @@ impl AtomData {
 
     /// Attempts to write the atom data to the writer.
     pub fn write(&self, writer: &mut impl Write) -> crate::Result<()> {
-        writer.write_all(&u32::to_be_bytes(self.len() as u32))?;
-
         match &self.ident {
-            DataIdent::Fourcc(ident) => writer.write_all(ident.deref())?,
-            _ => {
-                let (mean, name) = match &self.ident {
-                    DataIdent::Freeform { mean, name } => (mean.as_str(), name.as_str()),
-                    DataIdent::Fourcc(_) => unreachable!(),
-                };
-                writer.write_all(FREEFORM.deref())?;
-
-                let mean_len: u32 = 12 + mean.len() as u32;
-                writer.write_all(&u32::to_be_bytes(mean_len))?;
-                writer.write_all(MEAN.deref())?;
+            DataIdent::Fourcc(ident) => write_head(writer, Head::from(self.size(), *ident))?,
+            DataIdent::Freeform { mean, name } => {
+                write_head(writer, Head::from(self.size(), FREEFORM))?;
+
+                write_head(writer, Head::from(Size::from(4 + mean.len() as u64), MEAN))?;
                 writer.write_all(&[0u8; 4])?;
                 writer.write_all(mean.as_bytes())?;
 
-                let name_len: u32 = 12 + name.len() as u32;
-                writer.write_all(&u32::to_be_bytes(name_len))?;
-                writer.write_all(NAME.deref())?;
+                write_head(writer, Head::from(Size::from(4 + name.len() as u64), NAME))?;
                 writer.write_all(&[0u8; 4])?;
                 writer.write_all(name.as_bytes())?;
             }
         }
 
         for d in self.data.iter() {
-            let data_len: u32 = 16 + d.len() as u32;
-            writer.write_all(&u32::to_be_bytes(data_len))?;
-            writer.write_all(DATA.deref())?;
+            write_head(writer, Head::from(Size::from(8 + d.len()), DATA))?;
             d.write_typed(writer)?;
         }
 
-- 
2.43.0


From 6afe42357aec45ad6aaff252673a616a5808da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 19/19] fix: refuse to write metadata that exceeds the 32 bit
 length of an enclosing atom

The new length was truncated, after which the atom no longer enclosed its content.
---
 src/atom/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index a25bf93..b8195e6 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -485,6 +485,16 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         }
     }
 
+    // existing atoms with a head of standard size are limited to 32 bit lengths
+    for a in update_atoms.iter() {
+        if !a.ext() && a.len() as i64 + len_diff > u32::MAX as i64 {
+            return Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                "Atom length can't be represented after writing the metadata".to_owned(),
+            ));
+        }
+    }
+
     let mut writer = BufWriter::new(file);
 
     // adjusting sample table chunk offsets
-- 
2.43.0

