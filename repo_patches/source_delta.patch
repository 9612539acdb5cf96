From deb24417e34c078746d46c0f04a102445624eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:36 +0000
Subject: [PATCH 01/66] fix: flush the writer when a pak is finished, so a
 failed final write is reported

---
 unreal_pak/src/index.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 2f7d197..f3a6322 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -140,6 +140,9 @@ impl Index {
 
         Footer::write(writer, index.footer)?;
 
+        // data still sitting in a buffered writer would be lost silently on drop
+        writer.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 8cbe371adb40e3dc32e5168e6d7dd4f984ff77b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:36 +0000
Subject: [PATCH 02/66] fix: accept paks which are smaller than the longest
 footer

---
 unreal_pak/src/index.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index f3a6322..01c9c78 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -161,10 +161,16 @@ pub(crate) struct Footer {
 impl Footer {
     pub(crate) fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, PakError> {
         // magic offset (from bottom) can only be 0x2C (v2-v7), 0xAC (v8a), 0xCC (v8b,v11), 0xCD (v9)
-        let possible_offsets = vec![-0x2C, -0xAC, -0xCC, -0xCD];
+        let possible_offsets: Vec<i64> = vec![-0x2C, -0xAC, -0xCC, -0xCD];
+
+        let file_len = reader.seek(SeekFrom::End(0))?;
 
         let mut magic_offset = None;
         for offset in possible_offsets {
+            // small paks are shorter than the longest possible footer
+            if file_len < -offset as u64 {
+                continue;
+            }
             reader.seek(SeekFrom::End(offset))?;
             if reader.read_u32::<BE>()? == PAK_MAGIC {
                 magic_offset = Some(offset);
-- 
2.43.0


From f0284acb247f7f128b21598f377654d8c7e36a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:36 +0000
Subject: [PATCH 03/66] fix: reject paks whose footer length does not match
 their version

---
 unreal_pak/src/index.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 01c9c78..e21f203 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -186,6 +186,20 @@ impl Footer {
             pak_version.set_subversion();
         }
 
+        // a footer of the wrong length for its version belongs to a truncated pak
+        let expected_offset = match pak_version {
+            PakVersion::FnameBasedCompressionMethodInitial => -0xAC,
+            PakVersion::FnameBasedCompressionMethod
+            | PakVersion::PathHashIndex
+            | PakVersion::Fnv64BugFix => -0xCC,
+            PakVersion::FrozenIndex => -0xCD,
+            PakVersion::Invalid => return Err(PakError::pak_invalid()),
+            _ => -0x2C,
+        };
+        if magic_offset != expected_offset {
+            return Err(PakError::pak_invalid());
+        }
+
         let index_offset = reader.read_u64::<LE>()?;
         let index_size = reader.read_u64::<LE>()?;
 
-- 
2.43.0


From 5c5b268730a61aea3c9de223e1af4e813779f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:36 +0000
Subject: [PATCH 04/66] fix: compression block offsets of pak versions before
 RelativeChunkOffsets

---
 unreal_pak/src/entry.rs  |  9 ++++++++-
 unreal_pak/src/header.rs | 24 +++++++++++++-----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index c54c72a..932218a 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -103,6 +103,13 @@ where
             let mut compression_blocks_inner = Vec::with_capacity(block_count);
             let header_len = Header::calculate_header_len(pak_version, Some(block_count as u32));
 
+            // block offsets used to be absolute
+            let block_base = if pak_version < PakVersion::RelativeChunkOffsets {
+                offset + header_len
+            } else {
+                header_len
+            };
+
             for chunk in data.chunks(block_size as usize) {
                 let begin = compressed_data.len() as u64;
 
@@ -110,7 +117,7 @@ where
                 compressed_data.extend_from_slice(&block_compressed_data);
 
                 compression_blocks_inner.push(Block {
-                    start: begin + header_len,
+                    start: begin + block_base,
                     size: block_compressed_data.len() as u64,
                 });
             }
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 516f0d1..792e558 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -40,6 +40,7 @@ pub(crate) struct Header {
 #[derive(Debug, Clone)]
 pub(crate) struct Block {
     /// Start offset relative to the start of the header of the entry
+    /// (when writing a version before `RelativeChunkOffsets`: start offset in the file)
     pub start: u64,
     /// size of the compressed block
     pub size: u64,
@@ -78,18 +79,19 @@ impl Header {
                 let mut compression_blocks_inner = Vec::with_capacity(block_count);
 
                 for _ in 0..block_count {
-                    // convert old absolute to relative offsets
-                    let start_offset = reader.read_u64::<LE>()?
-                        - if pak_version < PakVersion::RelativeChunkOffsets {
-                            offset
-                        } else {
-                            0
-                        };
+                    let start_offset = reader.read_u64::<LE>()?;
                     let end_offset = reader.read_u64::<LE>()?;
-                    compression_blocks_inner.push(Block {
-                        start: start_offset,
-                        size: end_offset - start_offset,
-                    });
+                    let size = end_offset
+                        .checked_sub(start_offset)
+                        .ok_or_else(PakError::entry_invalid)?;
+
+                    // convert old absolute to relative offsets
+                    let start = if pak_version < PakVersion::RelativeChunkOffsets {
+                        start_offset.checked_sub(offset).unwrap_or(start_offset)
+                    } else {
+                        start_offset
+                    };
+                    compression_blocks_inner.push(Block { start, size });
                 }
                 compression_blocks = Some(compression_blocks_inner);
             }
-- 
2.43.0


From 65cf0f9c2c586926f3af87f98f6e032fccdc3d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:36 +0000
Subject: [PATCH 05/66] fix: corrupt lengths in a pak no longer panic or
 exhaust memory

---
 unreal_helpers/src/read_ext.rs |  3 ++-
 unreal_pak/src/entry.rs        | 22 +++++++++++++++-------
 unreal_pak/src/header.rs       |  2 +-
 unreal_pak/src/index.rs        |  2 +-
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index dd55200..1739c28 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -54,7 +54,8 @@ impl<R: Read + Seek> UnrealReadExt for R {
         let len = self.read_i32::<LE>()?;
 
         let (len, is_wide) = match len < 0 {
-            true => (-len, true),
+            // i32::MIN has no positive counterpart, it gets rejected as too long
+            true => (len.checked_neg().unwrap_or(i32::MAX), true),
             false => (len, false),
         };
         read_fstring_len(self, len, is_wide)
diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index 932218a..1ef8d9f 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use crate::compression::CompressionMethods;
 use crate::error::PakError;
@@ -29,12 +29,10 @@ where
 
     match header.compression_method {
         Compression::None => {
-            let mut data = vec![0u8; header.decompressed_size as usize];
-            reader.read_exact(data.as_mut_slice())?;
-            Ok(data)
+            read_vec(reader, header.decompressed_size)
         }
         Compression::Known(_) => {
-            let mut data = Vec::with_capacity(header.decompressed_size as usize);
+            let mut data = Vec::new();
 
             let compression_blocks = header
                 .compression_blocks
@@ -42,8 +40,7 @@ where
                 .ok_or_else(PakError::entry_invalid)?;
             for block in compression_blocks {
                 // we do not need to seek here because the reader is at the end of the header and compression blocks are continuous
-                let mut compressed_data = vec![0u8; block.size as usize];
-                reader.read_exact(&mut compressed_data)?;
+                let compressed_data = read_vec(reader, block.size)?;
                 header
                     .compression_method
                     .decompress(&mut data, compressed_data.as_slice())?;
@@ -55,6 +52,17 @@ where
     }
 }
 
+/// Read exactly `len` bytes. The length comes from the file and may be corrupt,
+/// so memory is only allocated for bytes which actually exist.
+fn read_vec<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>, PakError> {
+    let mut data = Vec::new();
+    reader.take(len).read_to_end(&mut data)?;
+    if data.len() as u64 != len {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(data)
+}
+
 /// Write an entry with Header at the position the write is at
 ///
 /// # Arguments
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 792e558..46972b8 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -76,7 +76,7 @@ impl Header {
         if pak_version >= PakVersion::CompressionEncryption {
             if !matches!(compression_method, Compression::None) {
                 let block_count = reader.read_u32::<LE>()? as usize;
-                let mut compression_blocks_inner = Vec::with_capacity(block_count);
+                let mut compression_blocks_inner = Vec::new();
 
                 for _ in 0..block_count {
                     let start_offset = reader.read_u64::<LE>()?;
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index e21f203..5488081 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -28,7 +28,7 @@ impl Index {
         let mut path_hash_seed = None;
 
         let entry_count = reader.read_u32::<LE>()?;
-        let mut entries = Vec::with_capacity(entry_count as usize);
+        let mut entries = Vec::new();
 
         if footer.pak_version < PakVersion::PathHashIndex {
             for _ in 0..entry_count {
-- 
2.43.0


From b3017f70591894603c6af0a726dd9e9741c3ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 06/66] fix: unreal_pak_cli create fails instead of silently
 leaving out unreadable directories

---
 unreal_pak_cli/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 4421695..aa047da 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -187,7 +187,13 @@ fn main() {
             // Get all files and write them to the .pak file
             let files = WalkDir::new(&indir)
                 .into_iter()
-                .filter_map(|entry| entry.ok())
+                .map(|entry| match entry {
+                    Ok(entry) => entry,
+                    Err(err) => {
+                        eprintln!("Error reading directory {indir:?}! Error: {err}");
+                        exit(1);
+                    }
+                })
                 .filter(|entry| entry.file_type().is_file())
                 .collect::<Vec<_>>();
             //files.sort_unstable_by_key(|entry| entry.file_name().to_owned());
-- 
2.43.0


From 65290c5b775b655fa13b5770652ad3b37da25c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:00 +0000
Subject: [PATCH 07/66] fix: unreal_pak_cli extract never writes outside of the
 output directory

---
 unreal_pak_cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index aa047da..e9a9b95 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -1,6 +1,6 @@
 use std::fs::{File, OpenOptions};
 use std::io::{BufReader, BufWriter, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::process::exit;
 use std::time::SystemTime;
 
@@ -99,6 +99,15 @@ fn main() {
             for (i, (file_name, data)) in pak.iter().enumerate() {
                 match data {
                     Ok(data) => {
+                        // names like "../x" or "/x" would end up outside of the output folder
+                        if !Path::new(file_name)
+                            .components()
+                            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+                        {
+                            eprintln!("Record {i} has an unsafe path: {file_name:?}!");
+                            exit(1);
+                        }
+
                         let path = output_folder.join(file_name);
                         let dir_path = match path.parent() {
                             Some(dir) => dir,
-- 
2.43.0


From d6b679e3f347eee839325139ab0c8790d33c9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:31 +0000
Subject: [PATCH 08/66] fix: asset header keeps the compatible engine version
 when saved

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 8505604..35ea0cc 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1090,7 +1090,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION
         {
-            self.engine_version_recorded.write(cursor)?;
+            self.engine_version_compatible.write(cursor)?;
         }
 
         cursor.write_u32::<LE>(self.compression_flags)?;
-- 
2.43.0


From b2f1718040563f72cb810f19300ee8232747ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:53 +0000
Subject: [PATCH 09/66] fix: asset header counts the soft package references
 which are written

---
 unreal_asset/src/asset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 35ea0cc..0f008e5 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1063,7 +1063,11 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         if self.asset_data.object_version >= ObjectVersion::VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP
         {
-            cursor.write_i32::<LE>(self.soft_package_reference_count)?;
+            cursor.write_i32::<LE>(
+                self.soft_package_reference_list
+                    .as_ref()
+                    .map_or(self.soft_package_reference_count, |e| e.len() as i32),
+            )?;
             cursor.write_i32::<LE>(asset_header.soft_package_reference_offset)?;
         }
 
-- 
2.43.0


From 6bc89764eebfe5664030ff715e76d509ef1a1577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:59 +0000
Subject: [PATCH 10/66] fix: reading an asset no longer adds names to its name
 map

---
 .../unreal_asset_properties/src/array_property.rs |  2 +-
 .../src/cloth_lod_property.rs                     | 15 +++------------
 .../movie_scene_eval_template_ptr_property.rs     |  2 +-
 ...vie_scene_track_implementation_ptr_property.rs |  2 +-
 4 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 5c62eb0..f25a441 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -155,7 +155,7 @@ impl ArrayProperty {
                 .get_content(|name| asset.get_array_struct_type_override().get_by_key(name))
                 .cloned()
             {
-                full_type = asset.add_fname(&type_override);
+                full_type = FName::from_slice(&type_override);
             }
 
             if num_entries == 0 {
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index cb94c9b..9cfb8d0 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -25,10 +25,7 @@ impl MeshToMeshVertData {
     ) -> Result<Self, Error> {
         let position_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("PositionBaryCoordsAndDist"),
+            FName::from_slice("PositionBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -36,10 +33,7 @@ impl MeshToMeshVertData {
 
         let normal_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("NormalBaryCoordsAndDist"),
+            FName::from_slice("NormalBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -47,10 +41,7 @@ impl MeshToMeshVertData {
 
         let tangent_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("TangentBaryCoordsAndDist"),
+            FName::from_slice("TangentBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 1a43da5..79eec17 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneEvalTemplatePtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index c41ad45..e0770aa 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneTrackImplementationPtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
-- 
2.43.0


From 46370d23d0ed837f54c111e928f8939c2b5d2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:59 +0000
Subject: [PATCH 11/66] fix: struct arrays keep the guid of their struct when
 saved

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index f25a441..c7836df 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -286,7 +286,7 @@ impl ArrayProperty {
                 )?;
                 if asset.get_object_version() >= ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG
                 {
-                    asset.write_guid(&property.property_guid.unwrap_or_default())?;
+                    asset.write_guid(&property.struct_guid.unwrap_or_default())?;
                 }
                 if asset.get_object_version()
                     >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
-- 
2.43.0


From 9deedbf5f7d9b562ce4e6c537b39f159fccc798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:59 +0000
Subject: [PATCH 12/66] fix: the inner tag of a struct array holds the length
 of its items for every object version

---
 .../unreal_asset_properties/src/array_property.rs      | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index c7836df..bdd59b5 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -295,6 +295,7 @@ impl ArrayProperty {
                 }
             }
 
+            let data_loc = asset.position();
             for property in &self.value {
                 let struct_property: &StructProperty = match property {
                     Property::StructProperty(e) => Ok(e),
@@ -308,16 +309,9 @@ impl ArrayProperty {
 
             if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
                 let length_loc = length_loc.expect("Corrupted memory");
-                let full_len = asset.position() - length_loc;
                 let new_loc = asset.position();
+                let length = new_loc - data_loc;
                 asset.seek(SeekFrom::Start(length_loc))?;
-                let length = full_len
-                    - 32
-                    - match include_header {
-                        true => 1,
-                        false => 0,
-                    };
-
                 asset.write_i32::<LE>(length as i32)?;
                 asset.seek(SeekFrom::Start(new_loc))?;
             }
-- 
2.43.0


From 0249c7c1947e6aaa0b974baf395872b429011b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:17 +0000
Subject: [PATCH 13/66] fix: a map property keeps all of its keys to remove

---
 .../unreal_asset_properties/src/map_property.rs       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 7d6871a..ed51606 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -150,14 +150,13 @@ impl MapProperty {
         }
 
         let num_keys_to_remove = asset.read_i32::<LE>()?;
-        let mut keys_to_remove = None;
+        let mut keys_to_remove: Option<Vec<Property>> = None;
 
         let type_1 = type_1.ok_or_else(|| Error::invalid_file("No type1".to_string()))?;
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
-        for _ in 0..num_keys_to_remove as usize {
-            let mut vec = Vec::with_capacity(num_keys_to_remove as usize);
-            vec.push(MapProperty::map_type_to_class(
+        for _ in 0..num_keys_to_remove {
+            let key = MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
                 name.clone(),
@@ -165,8 +164,8 @@ impl MapProperty {
                 0,
                 false,
                 true,
-            )?);
-            keys_to_remove = Some(vec);
+            )?;
+            keys_to_remove.get_or_insert_with(Vec::new).push(key);
         }
 
         let num_entries = asset.read_i32::<LE>()?;
-- 
2.43.0


From ab2c61bc45083af31cf7dfc2dc02f200658a3f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:12 +0000
Subject: [PATCH 14/66] fix: font data keeps its sub face index when saved

---
 .../src/slate_core/font_data_property.rs                        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
index c829ac8..0e1b92f 100644
--- a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
@@ -121,6 +121,8 @@ impl FontData {
                     PropertyError::property_field_none("loading_policy", "Some(ELoadingPolicy)")
                 })? as u8)?;
             }
+
+            asset.write_i32::<LE>(self.sub_face_index.unwrap_or_default())?;
         }
         Ok(())
     }
-- 
2.43.0


From e71cfd2fe28e73ff107d452524fea73d7d024ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:12 +0000
Subject: [PATCH 15/66] fix: unique net ids no longer overwrite their type when
 saved

---
 .../src/game_framework/unique_net_id_property.rs                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
index 75764b6..fee3da7 100644
--- a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
@@ -71,6 +71,7 @@ impl PropertyTrait for UniqueNetIdProperty {
         match &self.value {
             Some(value) => {
                 let mut length = 3 * size_of::<i32>();
+                asset.write_i32::<LE>(0)?; // will be filled after serialization
                 asset.write_fname(&value.ty)?;
                 length += asset.write_fstring(value.contents.as_deref())?;
 
-- 
2.43.0


From f6fc1dab9b706c8826612dab4e75b9cfbde3c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:12 +0000
Subject: [PATCH 16/66] fix: write_fstring counts the terminator of wide
 strings

---
 unreal_helpers/src/write_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/write_ext.rs b/unreal_helpers/src/write_ext.rs
index 0879720..daca802 100644
--- a/unreal_helpers/src/write_ext.rs
+++ b/unreal_helpers/src/write_ext.rs
@@ -69,7 +69,7 @@ impl<W: Write> UnrealWriteExt for W {
                 self.write_all(aligned)?;
 
                 self.write_all(&[0u8; 2])?;
-                Ok(size_of::<i32>() + aligned.len())
+                Ok(size_of::<i32>() + aligned.len() + size_of::<u16>())
             } else {
                 self.write_i32::<LE>(string.len() as i32 + 1)?;
                 let bytes = string.as_bytes();
-- 
2.43.0


From 9be8b13befa6dca428c4546cd8cc7f167fb0b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:12 +0000
Subject: [PATCH 17/66] fix: mesh to mesh vertex data is saved with a single
 weight

---
 .../unreal_asset_properties/src/cloth_lod_property.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 9cfb8d0..95acf59 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -80,13 +80,13 @@ impl MeshToMeshVertData {
                 false => asset.write_u16::<LE>(0),
             }?;
             size += size_of::<u16>();
-
-            asset.write_f32::<LE>(self.weight.0)?;
-            size += size_of::<f32>();
-            asset.write_u32::<LE>(0)?;
-            size += size_of::<u32>();
         }
 
+        asset.write_f32::<LE>(self.weight.0)?;
+        size += size_of::<f32>();
+        asset.write_u32::<LE>(0)?;
+        size += size_of::<u32>();
+
         Ok(size)
     }
 }
-- 
2.43.0


From 7d206bc95df712b3e52bfae291a8194b24379743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 18/66] fix: evaluation trees read all of their items

---
 .../src/movies/movie_scene_evaluation.rs                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index 9479bd0..cd38712 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -145,7 +145,7 @@ where
         let items_amount = asset.read_i32::<LE>()?;
         let mut items = Vec::with_capacity(items_amount as usize);
 
-        for _ in 0..entries_amount {
+        for _ in 0..items_amount {
             items.push(item_reader(asset)?);
         }
 
-- 
2.43.0


From 73c0fa7aa1cc34212950c435b7380e1b6a61aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:41 +0000
Subject: [PATCH 19/66] fix: bytecode size counts the u16 line number of an
 assert

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 860d899..e6f33ec 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -1597,7 +1597,7 @@ impl KismetExpressionTrait for ExAssert {
     ) -> Result<usize, Error> {
         asset.write_u16::<LE>(self.line_number)?;
         asset.write_bool(self.debug_mode)?;
-        let offset = size_of::<u32>()
+        let offset = size_of::<u16>()
             + size_of::<bool>()
             + KismetExpression::write(self.assert_expression.as_ref(), asset)?;
         Ok(offset)
-- 
2.43.0


From fde6d912a8c1094909d70b647c8e781581441fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:05 +0000
Subject: [PATCH 20/66] fix: movie scene pointers without a type name are saved
 as such

---
 .../src/movies/movie_scene_eval_template_ptr_property.rs    | 6 ++++--
 .../movies/movie_scene_track_implementation_ptr_property.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 79eec17..1b65b79 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -41,8 +41,10 @@ impl MovieSceneEvalTemplatePtrProperty {
             0,
         )?;
 
-        if type_name.value.is_some() {
-            value.push(type_name.into());
+        let has_type_name = type_name.value.is_some();
+        value.push(type_name.into());
+
+        if has_type_name {
             let mut unversioned_header = UnversionedHeader::new(asset)?;
             while let Some(data) = Property::new(
                 asset,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index e0770aa..c8363b0 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -41,8 +41,10 @@ impl MovieSceneTrackImplementationPtrProperty {
             0,
         )?;
 
-        if type_name.value.is_some() {
-            value.push(type_name.into());
+        let has_type_name = type_name.value.is_some();
+        value.push(type_name.into());
+
+        if has_type_name {
             let mut unversioned_header = UnversionedHeader::new(asset)?;
             while let Some(data) = Property::new(
                 asset,
-- 
2.43.0


From c7fac95070c0e2f4cfd5099eb0e5511af52a1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:56 +0000
Subject: [PATCH 21/66] fix: colors keep alpha in the highest byte of an argb
 int

---
 unreal_asset/unreal_asset_base/src/types/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/types/vector.rs b/unreal_asset/unreal_asset_base/src/types/vector.rs
index d072bdd..bd307db 100644
--- a/unreal_asset/unreal_asset_base/src/types/vector.rs
+++ b/unreal_asset/unreal_asset_base/src/types/vector.rs
@@ -79,16 +79,16 @@ impl Color<u8> {
     /// Create a new `Color<u8>` instance from an argb int
     pub fn from_argb(argb: i32) -> Self {
         Color::new(
-            ((argb >> 24) & 0xff) as u8,
             ((argb >> 16) & 0xff) as u8,
             ((argb >> 8) & 0xff) as u8,
             (argb & 0xff) as u8,
+            ((argb >> 24) & 0xff) as u8,
         )
     }
 
     /// Convert to argb int
     pub fn to_argb(&self) -> i32 {
-        ((self.r as i32) << 24) | ((self.g as i32) << 16) | ((self.b as i32) << 8) | self.a as i32
+        ((self.a as i32) << 24) | ((self.r as i32) << 16) | ((self.g as i32) << 8) | self.b as i32
     }
 }
 
-- 
2.43.0


From 3aafcf456f4e711a4aa6aabc83c5a5f89d9ade56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:56 +0000
Subject: [PATCH 22/66] fix: names added while writing exports are part of the
 saved name map

---
 unreal_asset/src/asset.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 0f008e5..b3c598d 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1176,6 +1176,23 @@ impl<'a, C: Read + Seek> Asset<C> {
 
     /// Write asset data
     pub fn write_data<W: Read + Seek + Write>(
+        &self,
+        cursor: &mut W,
+        mut uexp_cursor: Option<&mut W>,
+    ) -> Result<(), Error> {
+        // names can get added to the name map while exports are being written,
+        // but at that point the name map was already written without them
+        loop {
+            let name_count = self.name_map.get_ref().get_name_map_index_list().len();
+            self.write_data_with_names(cursor, uexp_cursor.as_deref_mut())?;
+            if self.name_map.get_ref().get_name_map_index_list().len() == name_count {
+                return Ok(());
+            }
+        }
+    }
+
+    /// Write asset data with the names which are in the name map right now
+    fn write_data_with_names<W: Read + Seek + Write>(
         &self,
         cursor: &mut W,
         uexp_cursor: Option<&mut W>,
-- 
2.43.0


From 94e94f0a652321aded001ea85420f33889d2f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:10 +0000
Subject: [PATCH 23/66] fix: entries of an indexed map keep their place when
 another one is removed

---
 .../src/containers/indexed_map/mod.rs             | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 0a6d807..0595703 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -680,9 +680,22 @@ where
         let value = self.store.remove(store_place);
 
         self.index_iter_map.remove(value.index_iter_map_index);
-        self.index_map.remove(&value.index_map_index);
         self.key_map.remove(value.key_map_index.0.as_ref());
 
+        // all entries behind the removed one move up by one
+        self.index_map.pop_last();
+        for (index, place) in self
+            .index_iter_map
+            .iter()
+            .enumerate()
+            .skip(value.index_iter_map_index)
+        {
+            let entry = &mut self.store[*place];
+            entry.index_map_index = index;
+            entry.index_iter_map_index = index;
+            self.index_map.insert(index, *place);
+        }
+
         Some((
             value.index_map_index,
             Rc::<K>::try_unwrap(value.key_map_index.0).ok()?,
-- 
2.43.0


From 088f0a70cb0a511c1cb6c818e2d93b6f03280fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:38 +0000
Subject: [PATCH 24/66] fix: a chained pair of files reads like one file and
 reports seek errors

---
 .../unreal_asset_base/src/containers/chain.rs | 142 +++++++++---------
 1 file changed, 74 insertions(+), 68 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 4652949..04dac1d 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -1,100 +1,106 @@
 //! Chain for chaining two `Read` + `Seek` implementations
 
-use std::io::{Read, Result, Seek, SeekFrom};
+use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
 
 /// Chain for chaining two `Read` + `Seek` implementations
 pub struct Chain<C: Read + Seek> {
     first: C,
     second: Option<C>,
-    first_len: u64,
-    second_len: u64,
+    /// Lengths of both parts, known as soon as both could be rewound
+    lens: Option<(u64, u64)>,
     pos: u64,
 }
 
 impl<C: Read + Seek> Chain<C> {
     /// Create a new chain
-    pub fn new(mut first: C, mut second: Option<C>) -> Self {
-        // ignore errors for now
-        let first_len = first.seek(SeekFrom::End(0)).unwrap_or_default();
-        first.rewind().unwrap_or_default();
-        let second_len = match second.as_mut() {
+    pub fn new(first: C, second: Option<C>) -> Self {
+        let mut chain = Self {
+            first,
+            second,
+            lens: None,
+            pos: 0,
+        };
+        // errors come up again on the first read or seek
+        let _ = chain.lens();
+        chain
+    }
+
+    /// Get the lengths of both parts
+    fn lens(&mut self) -> Result<(u64, u64)> {
+        if let Some(lens) = self.lens {
+            return Ok(lens);
+        }
+
+        let first_len = self.first.seek(SeekFrom::End(0))?;
+        self.first.rewind()?;
+        let second_len = match self.second.as_mut() {
             Some(sec) => {
-                let len = sec.seek(SeekFrom::End(0)).unwrap_or_default();
-                sec.rewind().unwrap_or_default();
+                let len = sec.seek(SeekFrom::End(0))?;
+                sec.rewind()?;
                 len
             }
             None => 0,
         };
-        Self {
-            first,
-            second,
-            first_len,
-            second_len,
-            pos: 0,
-        }
+
+        self.lens = Some((first_len, second_len));
+        Ok((first_len, second_len))
     }
 }
 
 impl<C: Read + Seek> Read for Chain<C> {
-    // this is an implementation of read so clippy complaining about use of read is stupid
-    #[allow(clippy::unused_io_amount)]
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        match self.second.as_mut() {
-            Some(sec) => {
-                let len_read = match self.pos >= self.first_len {
-                    true => sec.read(buf)?,
-                    false => {
-                        let len = buf.len() as u64;
-                        let to_end = self.first_len - self.pos;
-                        match to_end >= len {
-                            true => self.first.read(buf)?,
-                            false => {
-                                let mut first = vec![0; to_end as usize];
-                                let excess = len - to_end;
-                                let mut second = vec![
-                                    0;
-                                    match excess > self.second_len {
-                                        true => self.second_len,
-                                        false => excess,
-                                    } as usize
-                                ];
-                                self.first.read_exact(&mut first)?;
-                                sec.read_exact(&mut second)?;
-                                first.append(&mut second);
-                                first.as_slice().read(buf)?
-                            }
-                        }
-                    }
-                };
-                self.pos += len_read as u64;
-                Ok(len_read)
+        let (first_len, _) = self.lens()?;
+
+        let len_read = match self.second.as_mut() {
+            Some(sec) if self.pos >= first_len => sec.read(buf)?,
+            Some(_) => {
+                // the rest is in the second part, which is at its start as long as
+                // the position is in the first one
+                let len = (buf.len() as u64).min(first_len - self.pos) as usize;
+                self.first.read(&mut buf[..len])?
             }
-            None => self.first.read(buf),
-        }
+            None => self.first.read(buf)?,
+        };
+
+        self.pos += len_read as u64;
+        Ok(len_read)
     }
 }
 
 impl<C: Read + Seek> Seek for Chain<C> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
+        let (first_len, second_len) = self.lens()?;
+
+        let offset = match pos {
+            SeekFrom::Start(offset) => Some(offset),
+            SeekFrom::End(offset) => (first_len + second_len).checked_add_signed(offset),
+            SeekFrom::Current(offset) => self.pos.checked_add_signed(offset),
+        }
+        .ok_or_else(|| {
+            Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            )
+        })?;
+
         match self.second.as_mut() {
-            Some(sec) => match pos {
-                SeekFrom::Start(offset) => {
-                    self.pos = match offset < self.first_len {
-                        true => self.first.seek(pos)?,
-                        false => {
-                            self.first_len + sec.seek(SeekFrom::Start(offset - self.first_len))?
-                        }
-                    };
-                    Ok(offset)
-                }
-                SeekFrom::End(offset) => self.seek(SeekFrom::Start(
-                    ((self.first_len + self.second_len) as i64 + offset) as u64,
-                )),
-                SeekFrom::Current(offset) => {
-                    self.seek(SeekFrom::Start((self.pos as i64 + offset) as u64))
-                }
-            },
-            None => self.first.seek(pos),
+            Some(sec) if offset >= first_len => {
+                sec.seek(SeekFrom::Start(offset - first_len))?;
+            }
+            Some(sec) => {
+                sec.rewind()?;
+                self.first.seek(SeekFrom::Start(offset))?;
+            }
+            None => {
+                self.first.seek(SeekFrom::Start(offset))?;
+            }
         }
+
+        self.pos = offset;
+        Ok(offset)
+    }
+
+    fn stream_position(&mut self) -> Result<u64> {
+        Ok(self.pos)
     }
 }
-- 
2.43.0


From 946c9481b3079d46cfe085c269f9256fad6d5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 25/66] fix: a failing read is reported instead of replacing
 the export by raw data

---
 unreal_asset/src/asset_data.rs                      |  2 ++
 unreal_asset/unreal_asset_base/src/error.rs         | 13 +++++++++++++
 .../unreal_asset_exports/src/struct_export.rs       |  7 ++++++-
 .../unreal_asset_properties/src/int_property.rs     |  7 +++++--
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/src/asset_data.rs b/unreal_asset/src/asset_data.rs
index f51517d..04060b7 100644
--- a/unreal_asset/src/asset_data.rs
+++ b/unreal_asset/src/asset_data.rs
@@ -459,6 +459,8 @@ pub trait ExportReaderTrait<Index: PackageIndexTrait>:
 
                 Ok(reduced)
             }
+            // the export itself might be fine, do not replace it
+            Err(e) if e.is_io_failure() => Err(e),
             Err(_e) => {
                 // todo: warning?
                 self.seek(SeekFrom::Start(serial_offset))?;
diff --git a/unreal_asset/unreal_asset_base/src/error.rs b/unreal_asset/unreal_asset_base/src/error.rs
index 744c863..33f1196 100644
--- a/unreal_asset/unreal_asset_base/src/error.rs
+++ b/unreal_asset/unreal_asset_base/src/error.rs
@@ -370,6 +370,19 @@ pub enum Error {
 }
 
 impl Error {
+    /// Did the underlying reader fail, as opposed to the data being invalid
+    pub fn is_io_failure(&self) -> bool {
+        match self {
+            Error::Io(e) | Error::FString(FStringError::Io(e)) => !matches!(
+                e.kind(),
+                io::ErrorKind::UnexpectedEof
+                    | io::ErrorKind::InvalidInput
+                    | io::ErrorKind::InvalidData
+            ),
+            _ => false,
+        }
+    }
+
     /// Create an `Error` for a case where expected data was not found
     pub fn no_data(msg: String) -> Self {
         Error::NoData(msg.into_boxed_str())
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 6dae133..04ae5fa 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -82,7 +82,12 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         let mut script_bytecode = None;
         if asset.get_engine_version() >= EngineVersion::VER_UE4_16 {
             script_bytecode =
-                StructExport::<Index>::read_bytecode(asset, start_offset, script_storage_size).ok();
+                match StructExport::<Index>::read_bytecode(asset, start_offset, script_storage_size)
+                {
+                    Ok(e) => Some(e),
+                    Err(e) if e.is_io_failure() => return Err(e),
+                    Err(_) => None,
+                };
         }
 
         let script_bytecode_raw = match &script_bytecode {
diff --git a/unreal_asset/unreal_asset_properties/src/int_property.rs b/unreal_asset/unreal_asset_properties/src/int_property.rs
index e3dd96f..f43b7b7 100644
--- a/unreal_asset/unreal_asset_properties/src/int_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/int_property.rs
@@ -347,8 +347,11 @@ impl ByteProperty {
             false => (None, None),
         };
 
-        let value = ByteProperty::read_value(asset, length)
-            .or_else(|_| ByteProperty::read_value(asset, fallback_length))?;
+        let value =
+            ByteProperty::read_value(asset, length).or_else(|e| match e.is_io_failure() {
+                true => Err(e),
+                false => ByteProperty::read_value(asset, fallback_length),
+            })?;
 
         Ok(ByteProperty {
             name,
-- 
2.43.0


From 2a0fa669daaddde844bead7d291dcfc1855ba1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:37 +0000
Subject: [PATCH 26/66] fix: the writer knows its position when the file cannot
 tell it

---
 .../src/reader/raw_writer.rs                  | 52 +++++++++++++++++--
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/raw_writer.rs b/unreal_asset/unreal_asset_base/src/reader/raw_writer.rs
index 400247e..7f732f8 100644
--- a/unreal_asset/unreal_asset_base/src/reader/raw_writer.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/raw_writer.rs
@@ -1,6 +1,6 @@
 //! Binary archive writer
 
-use std::io::{self, Seek, Write};
+use std::io::{self, Seek, SeekFrom, Write};
 use std::marker::PhantomData;
 
 use unreal_helpers::{Guid, UnrealWriteExt};
@@ -18,10 +18,53 @@ use crate::unversioned::Usmap;
 use crate::Error;
 
 
+/// A writer which knows its position without having to ask for it
+struct PositionedWriter<'cursor, W: Write + Seek> {
+    /// Inner writer
+    inner: &'cursor mut W,
+    /// Position, known as soon as the inner writer could tell it
+    pos: Option<u64>,
+}
+
+impl<W: Write + Seek> PositionedWriter<'_, W> {
+    /// Get current position
+    fn pos(&mut self) -> io::Result<u64> {
+        match self.pos {
+            Some(pos) => Ok(pos),
+            None => Ok(*self.pos.insert(self.inner.stream_position()?)),
+        }
+    }
+}
+
+impl<W: Write + Seek> Write for PositionedWriter<'_, W> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        let pos = self.pos()?;
+        let written = self.inner.write(buf)?;
+        self.pos = Some(pos + written as u64);
+        Ok(written)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.inner.flush()
+    }
+}
+
+impl<W: Write + Seek> Seek for PositionedWriter<'_, W> {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        let pos = self.inner.seek(pos)?;
+        self.pos = Some(pos);
+        Ok(pos)
+    }
+
+    fn stream_position(&mut self) -> io::Result<u64> {
+        self.pos()
+    }
+}
+
 /// A binary writer
 pub struct RawWriter<'cursor, Index: PackageIndexTrait, W: Write + Seek> {
     /// Writer cursor
-    cursor: &'cursor mut W,
+    cursor: PositionedWriter<'cursor, W>,
     /// Object version
     object_version: ObjectVersion,
     /// UE5 object version
@@ -46,7 +89,10 @@ impl<'cursor, Index: PackageIndexTrait, W: Write + Seek> RawWriter<'cursor, Inde
         name_map: SharedResource<NameMap>,
     ) -> Self {
         RawWriter {
-            cursor,
+            cursor: PositionedWriter {
+                inner: cursor,
+                pos: None,
+            },
             object_version,
             object_version_ue5,
             use_event_driven_loader,
-- 
2.43.0


From c82f39ec733e3f4035233dd7c3ce83429721cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 27/66] fix: an invalid unversioned header no longer overflows

---
 .../unreal_asset_base/src/unversioned/header.rs      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index d234886..2b34f36 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -135,14 +135,20 @@ impl UnversionedHeader {
 
         let mut fragments = Vec::new();
 
-        let mut first_num = 0;
+        let mut first_num = 0u8;
         let mut zero_mask_num = 0u16;
         let mut unmasked_num = 0u16;
 
         loop {
             let mut fragment = UnversionedHeaderFragment::read(asset)?;
-            fragment.first_num = first_num + fragment.skip_num;
-            first_num += fragment.skip_num + fragment.value_num;
+            // values are u8, a larger property index can't be represented
+            fragment.first_num = first_num
+                .checked_add(fragment.skip_num)
+                .ok_or_else(|| Error::invalid_file("Invalid unversioned header".to_string()))?;
+            first_num = fragment
+                .first_num
+                .checked_add(fragment.value_num)
+                .ok_or_else(|| Error::invalid_file("Invalid unversioned header".to_string()))?;
 
             fragments.push(fragment);
 
-- 
2.43.0


From 9694975fb02af50454a0a79f5b1689f52fbbc4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 28/66] fix: invalid counts, lengths and indices in an asset
 are errors instead of panics or huge allocations

---
 unreal_asset/src/asset.rs                     | 63 ++++++++++---------
 unreal_asset/src/asset_archive_writer.rs      |  8 +--
 unreal_asset/src/asset_data.rs                |  4 +-
 .../src/reader/archive_reader.rs              | 35 +++++++++--
 .../unreal_asset_exports/src/class_export.rs  |  4 +-
 .../src/data_table_export.rs                  |  2 +-
 .../unreal_asset_exports/src/raw_export.rs    |  3 +-
 .../unreal_asset_exports/src/struct_export.rs |  8 +--
 unreal_asset/unreal_asset_kismet/src/lib.rs   |  4 +-
 .../src/array_property.rs                     |  2 +-
 .../src/cloth_lod_property.rs                 |  5 +-
 .../src/delegate_property.rs                  |  2 +-
 .../src/gameplay_tag_container_property.rs    |  2 +-
 .../src/map_property.rs                       |  4 +-
 .../src/movies/movie_scene_evaluation.rs      |  4 +-
 .../movie_scene_event_parameters_property.rs  |  3 +-
 .../movie_scene_float_channel_property.rs     |  4 +-
 .../movies/movie_scene_segment_property.rs    |  2 +-
 .../src/per_platform_property.rs              |  6 +-
 .../src/raw_struct_property.rs                |  3 +-
 .../src/sampler_property.rs                   |  8 +--
 .../src/unknown_property.rs                   |  3 +-
 .../src/world_tile_property.rs                |  2 +-
 unreal_helpers/src/read_ext.rs                | 12 ++--
 24 files changed, 109 insertions(+), 84 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index b3c598d..d9c949c 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -82,6 +82,8 @@ pub struct UAssetExportMapEntry {
     pub public_export_hash: u64,
     /// First dependency serialized offset
     pub first_export_dependency_offset: i32,
+    /// Numbers of dependencies as stored in the export map, in the order of the lists below
+    pub dependency_counts: [i32; 4],
 
     /// Dependencies that should be serialized before this export is serialized
     pub serialization_before_serialization_dependencies: Vec<PackageIndex>,
@@ -149,14 +151,9 @@ impl UAssetExportMapEntry {
             >= ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS
         {
             entry.first_export_dependency_offset = archive.read_i32::<LE>()?;
-            entry.serialization_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.serialization_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
+            for count in &mut entry.dependency_counts {
+                *count = archive.read_i32::<LE>()?;
+            }
         }
 
         Ok(entry)
@@ -302,6 +299,12 @@ impl UAssetExportMapEntry {
             generate_public_hash: b.generate_public_hash,
             public_export_hash: b.public_export_hash,
             first_export_dependency_offset: b.first_export_dependency_offset,
+            dependency_counts: [
+                b.serialization_before_serialization_dependencies.len() as i32,
+                b.create_before_serialization_dependencies.len() as i32,
+                b.serialization_before_create_dependencies.len() as i32,
+                b.create_before_create_dependencies.len() as i32,
+            ],
             serialization_before_serialization_dependencies: b
                 .serialization_before_serialization_dependencies
                 .clone(),
@@ -712,8 +715,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            self.chunk_ids = vec![];
-            self.chunk_ids[0] = self.read_i32::<LE>()?;
+            self.chunk_ids = vec![self.read_i32::<LE>()?];
         }
 
         if self.asset_data.object_version
@@ -826,12 +828,8 @@ impl<'a, C: Read + Seek> Asset<C> {
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
-            return None;
-        }
-
-        Some(self.imports[index as usize].clone())
+        // the lowest index has no positive counterpart
+        self.imports.get(!index.index as usize).cloned()
     }
 
     /// Get an export
@@ -897,7 +895,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             }
         }
 
-        let mut export_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
+        let mut export_map = Vec::new();
         if self.export_offset > 0 {
             self.seek(SeekFrom::Start(self.export_offset as u64))?;
             for _i in 0..self.asset_data.summary.export_count {
@@ -911,7 +909,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.depends_offset > 0
             || depends_offset_zero_version_range.contains(&self.get_object_version())
         {
-            let mut depends_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
+            let mut depends_map = Vec::new();
 
             // 4.14-4.15 the depends offset wasnt updated so always serialized as 0
             if self.depends_offset > 0 {
@@ -930,8 +928,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         }
 
         if self.soft_package_reference_offset > 0 {
-            let mut soft_package_reference_list =
-                Vec::with_capacity(self.soft_package_reference_count as usize);
+            let mut soft_package_reference_list = Vec::new();
 
             self.seek(SeekFrom::Start(self.soft_package_reference_offset as u64))?;
 
@@ -958,16 +955,26 @@ impl<'a, C: Read + Seek> Asset<C> {
                     entry.first_export_dependency_offset as i64 * size_of::<i32>() as i64,
                 ))?;
 
-                let mut read_deps = |list: &mut Vec<PackageIndex>| -> Result<(), Error> {
-                    for _ in 0..list.capacity() {
+                let counts = entry.dependency_counts;
+                let mut read_deps = |list: &mut Vec<PackageIndex>, count| -> Result<(), Error> {
+                    for _ in 0..count {
                         list.push(PackageIndex::new(self.raw_reader.read_i32::<LE>()?))
                     }
                     Ok(())
                 };
-                read_deps(&mut entry.serialization_before_serialization_dependencies)?;
-                read_deps(&mut entry.create_before_serialization_dependencies)?;
-                read_deps(&mut entry.serialization_before_create_dependencies)?;
-                read_deps(&mut entry.create_before_create_dependencies)?;
+                read_deps(
+                    &mut entry.serialization_before_serialization_dependencies,
+                    counts[0],
+                )?;
+                read_deps(
+                    &mut entry.create_before_serialization_dependencies,
+                    counts[1],
+                )?;
+                read_deps(
+                    &mut entry.serialization_before_create_dependencies,
+                    counts[2],
+                )?;
+                read_deps(&mut entry.create_before_create_dependencies, counts[3])?;
             }
             self.seek(SeekFrom::Start(self.preload_dependency_offset as u64))?;
         }
@@ -986,7 +993,7 @@ impl<'a, C: Read + Seek> Asset<C> {
 
                 let next_starting = match i < (map_len - 1) {
                     true => serial_offsets[i + 1],
-                    false => self.data_length()? - 4,
+                    false => self.data_length()?.saturating_sub(4),
                 };
 
                 let export = self.read_export(base_export, next_starting)?;
@@ -1123,7 +1130,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            cursor.write_i32::<LE>(self.chunk_ids[0])?;
+            cursor.write_i32::<LE>(self.chunk_ids.first().copied().unwrap_or_default())?;
         }
 
         if self.asset_data.object_version
diff --git a/unreal_asset/src/asset_archive_writer.rs b/unreal_asset/src/asset_archive_writer.rs
index f332d1f..a211a6b 100644
--- a/unreal_asset/src/asset_archive_writer.rs
+++ b/unreal_asset/src/asset_archive_writer.rs
@@ -55,12 +55,8 @@ impl<'parent_writer, 'asset, ParentWriter: ArchiveWriter<PackageIndex>>
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
-            return None;
-        }
-
-        Some(self.imports[index as usize].clone())
+        // the lowest index has no positive counterpart
+        self.imports.get(!index.index as usize).cloned()
     }
 }
 
diff --git a/unreal_asset/src/asset_data.rs b/unreal_asset/src/asset_data.rs
index 04060b7..63d6698 100644
--- a/unreal_asset/src/asset_data.rs
+++ b/unreal_asset/src/asset_data.rs
@@ -423,9 +423,7 @@ pub trait ExportReaderTrait<Index: PackageIndexTrait>:
                 new_array_overrides,
             ));
         } else if let Some(normal_export) = export.get_normal_export_mut() {
-            let mut extras = vec![0u8; extras_len as usize];
-            self.read_exact(&mut extras)?;
-            normal_export.extras = extras;
+            normal_export.extras = self.read_bytes(extras_len)?;
         }
 
         Ok(ReadExport::new(
diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 14ba2a0..320b5ef 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -131,7 +131,7 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
 
         let hashes = match hash_version {
             hash if hash == enums::HASH_VERSION_CITYHASH64 => {
-                let mut hashes = Vec::with_capacity(num_strings as usize);
+                let mut hashes = Vec::new();
                 for _ in 0..num_strings {
                     hashes.push(self.read_u64::<LE>()?); // cityhash64 of crc::to_lower_string
                 }
@@ -143,12 +143,12 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
             ))),
         }?;
 
-        let mut name_headers = Vec::with_capacity(num_strings as usize);
+        let mut name_headers = Vec::new();
         for _ in 0..num_strings {
             name_headers.push(SerializedNameHeader::read(self)?);
         }
 
-        let mut name_batch = Vec::with_capacity(num_strings as usize);
+        let mut name_batch = Vec::new();
 
         for name_header in name_headers {
             name_batch.push(self.read_name_map_string(Some(name_header)).map(|e| e.0)?);
@@ -179,6 +179,33 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         Ok((name_batch, hash_version))
     }
 
+    /// Read a number of bytes
+    ///
+    /// The length usually comes from the file and might be invalid,
+    /// so this only allocates memory for bytes that exist
+    fn read_bytes(&mut self, length: i64) -> Result<Vec<u8>, Error> {
+        let length = u64::try_from(length)
+            .map_err(|_| Error::invalid_file(format!("Invalid data length {length}")))?;
+        let mut data = Vec::new();
+        Read::take(&mut *self, length).read_to_end(&mut data)?;
+        match data.len() as u64 == length {
+            true => Ok(data),
+            false => Err(io::Error::from(io::ErrorKind::UnexpectedEof).into()),
+        }
+    }
+
+    /// Read an entry count
+    ///
+    /// Entries can take no bytes at all, so an invalid count isn't always noticed
+    /// when reading them. A count above the archive length is always invalid.
+    fn read_entry_count(&mut self) -> Result<i32, Error> {
+        let count = self.read_i32::<LE>()?;
+        match count as i64 > self.data_length()? as i64 {
+            true => Err(Error::invalid_file(format!("Invalid entry count {count}"))),
+            false => Ok(count),
+        }
+    }
+
     /// Read an array with specified length
     ///
     /// # Examples
@@ -196,7 +223,7 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         length: i32,
         getter: impl Fn(&mut Self) -> Result<T, Error>,
     ) -> Result<Vec<T>, Error> {
-        let mut array = Vec::with_capacity(length as usize);
+        let mut array = Vec::new();
         for _ in 0..length {
             array.push(getter(self)?);
         }
diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index d738020..d4afdcc 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -79,7 +79,7 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         let struct_export = StructExport::from_base(base, asset)?;
 
         let num_func_index_entries = asset.read_i32::<LE>()? as usize;
-        let mut func_map = IndexedMap::with_capacity(num_func_index_entries);
+        let mut func_map = IndexedMap::new();
         for _i in 0..num_func_index_entries {
             let name = asset.read_fname()?;
             let function_export = PackageIndex::new(asset.read_i32::<LE>()?);
@@ -118,7 +118,7 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
             asset.seek(SeekFrom::Start(interfaces_start.unwrap()))?;
         }
         let num_interfaces = asset.read_i32::<LE>()? as usize;
-        let mut interfaces = Vec::with_capacity(num_interfaces);
+        let mut interfaces = Vec::new();
         for _i in 0..num_interfaces {
             interfaces.push(SerializedInterfaceReference::new(
                 PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index 29ef6a1..35ee9f8 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -61,7 +61,7 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
 
         asset.read_i32::<LE>()?;
         let num_entries = asset.read_i32::<LE>()? as usize;
-        let mut data = Vec::with_capacity(num_entries);
+        let mut data = Vec::new();
 
         let ancestry = Ancestry::new(base.get_class_type_for_ancestry(asset));
 
diff --git a/unreal_asset/unreal_asset_exports/src/raw_export.rs b/unreal_asset/unreal_asset_exports/src/raw_export.rs
index c9ccadf..fb5e77e 100644
--- a/unreal_asset/unreal_asset_exports/src/raw_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/raw_export.rs
@@ -46,8 +46,7 @@ impl<Index: PackageIndexTrait> RawExport<Index> {
         base: BaseExport<Index>,
         asset: &mut Reader,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; base.serial_size as usize];
-        asset.read_exact(&mut data)?;
+        let data = asset.read_bytes(base.serial_size)?;
 
         Ok(RawExport {
             base_export: base,
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 04ae5fa..1706e00 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -56,7 +56,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
         let num_index_entries = asset.read_i32::<LE>()?;
-        let mut children = Vec::with_capacity(num_index_entries as usize);
+        let mut children = Vec::new();
         for _i in 0..num_index_entries as usize {
             children.push(PackageIndex::new(asset.read_i32::<LE>()?));
         }
@@ -66,7 +66,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         {
             true => {
                 let num_props = asset.read_i32::<LE>()?;
-                let mut props = Vec::with_capacity(num_props as usize);
+                let mut props = Vec::new();
                 for _i in 0..num_props as usize {
                     props.push(FProperty::new(asset)?);
                 }
@@ -94,9 +94,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
             Some(_) => None,
             None => {
                 asset.seek(SeekFrom::Start(start_offset))?;
-                let mut data = vec![0u8; script_storage_size as usize];
-                asset.read_exact(&mut data)?;
-                Some(data)
+                Some(asset.read_bytes(script_storage_size as i64)?)
             }
         };
 
diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index e6f33ec..594a39c 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -762,7 +762,7 @@ impl KismetPropertyPointer {
             >= KismetPropertyPointer::XFER_PROP_POINTER_SWITCH_TO_SERIALIZING_AS_FIELD_PATH_VERSION
         {
             let num_entries = asset.read_i32::<LE>()?;
-            let mut names = Vec::with_capacity(num_entries as usize);
+            let mut names = Vec::new();
             for _i in 0..num_entries as usize {
                 names.push(asset.read_fname()?);
             }
@@ -3117,7 +3117,7 @@ impl ExSwitchValue {
         let end_goto_offset = asset.read_u32::<LE>()?;
         let index_term = Box::new(KismetExpression::new(asset)?);
 
-        let mut cases = Vec::with_capacity(num_cases as usize);
+        let mut cases = Vec::new();
         for _i in 0..num_cases as usize {
             let term_a = KismetExpression::new(asset)?;
             let term_b = asset.read_u32::<LE>()?;
diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index bdd59b5..0dd2109 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -81,7 +81,7 @@ impl ArrayProperty {
         mut array_type: Option<FName>,
         property_guid: Option<Guid>,
     ) -> Result<Self, Error> {
-        let num_entries = asset.read_i32::<LE>()?;
+        let num_entries = asset.read_entry_count()?;
         let mut entries = Vec::new();
         let mut name = name;
 
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 95acf59..3bf225e 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -124,14 +124,13 @@ impl ClothLodDataProperty {
         )?;
 
         let transition_up_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_up_skin_data = Vec::with_capacity(transition_up_skin_data_len as usize);
+        let mut transition_up_skin_data = Vec::new();
         for _ in 0..transition_up_skin_data_len {
             transition_up_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
 
         let transition_down_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_down_skin_data =
-            Vec::with_capacity(transition_down_skin_data_len as usize);
+        let mut transition_down_skin_data = Vec::new();
         for _ in 0..transition_down_skin_data_len {
             transition_down_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/delegate_property.rs b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
index a0934d7..a5c74a2 100644
--- a/unreal_asset/unreal_asset_properties/src/delegate_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
@@ -106,7 +106,7 @@ macro_rules! impl_multicast {
                 let property_guid = optional_guid!(asset, include_header);
 
                 let length = asset.read_i32::<LE>()?;
-                let mut value = Vec::with_capacity(length as usize);
+                let mut value = Vec::new();
                 for _ in 0..length {
                     value.push(Delegate::new(
                         PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
index e963d48..fc085a0 100644
--- a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
@@ -31,7 +31,7 @@ impl GameplayTagContainerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let length = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(length as usize);
+        let mut value = Vec::new();
         for _i in 0..length as usize {
             value.push(asset.read_fname()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index ed51606..7e44058 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -149,7 +149,7 @@ impl MapProperty {
             }
         }
 
-        let num_keys_to_remove = asset.read_i32::<LE>()?;
+        let num_keys_to_remove = asset.read_entry_count()?;
         let mut keys_to_remove: Option<Vec<Property>> = None;
 
         let type_1 = type_1.ok_or_else(|| Error::invalid_file("No type1".to_string()))?;
@@ -168,7 +168,7 @@ impl MapProperty {
             keys_to_remove.get_or_insert_with(Vec::new).push(key);
         }
 
-        let num_entries = asset.read_i32::<LE>()?;
+        let num_entries = asset.read_entry_count()?;
         let mut values: IndexedMap<Property, Property> = IndexedMap::new();
 
         for _ in 0..num_entries {
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index cd38712..e9c7e59 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -136,14 +136,14 @@ where
         item_reader: fn(&mut Reader) -> Result<T, Error>,
     ) -> Result<Self, Error> {
         let entries_amount = asset.read_i32::<LE>()?;
-        let mut entries = Vec::with_capacity(entries_amount as usize);
+        let mut entries = Vec::new();
 
         for _ in 0..entries_amount {
             entries.push(FEntry::new(asset)?);
         }
 
         let items_amount = asset.read_i32::<LE>()?;
-        let mut items = Vec::with_capacity(items_amount as usize);
+        let mut items = Vec::new();
 
         for _ in 0..items_amount {
             items.push(item_reader(asset)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
index ab178b6..c454d5e 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
@@ -19,8 +19,7 @@ impl MovieSceneEventParameters {
         let struct_type = SoftObjectPath::new(asset)?;
 
         let struct_bytes_length = asset.read_i32::<LE>()?;
-        let mut struct_bytes = vec![0u8; struct_bytes_length as usize];
-        asset.read_exact(&mut struct_bytes)?;
+        let struct_bytes = asset.read_bytes(struct_bytes_length as i64)?;
 
         Ok(MovieSceneEventParameters {
             struct_type,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
index 55ae5a1..47f493f 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
@@ -46,7 +46,7 @@ impl MovieSceneFloatChannel {
         let times_struct_length = asset.read_i32::<LE>()?;
         let times_length = asset.read_i32::<LE>()?;
 
-        let mut times = Vec::with_capacity(times_length as usize);
+        let mut times = Vec::new();
         for _ in 0..times_length {
             times.push(FrameNumber::new(asset.read_i32::<LE>()?));
         }
@@ -54,7 +54,7 @@ impl MovieSceneFloatChannel {
         let values_struct_length = asset.read_i32::<LE>()?;
         let values_length = asset.read_i32::<LE>()?;
 
-        let mut values = Vec::with_capacity(values_length as usize);
+        let mut values = Vec::new();
         for _ in 0..values_length {
             //todo: clangwin64 is always false?
             values.push(MovieSceneFloatValue::new(asset, false)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
index 0a0e075..ad1bc93 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
@@ -60,7 +60,7 @@ impl MovieSceneSegment {
         let allow_empty = asset.read_i32::<LE>()? != 0;
 
         let impls_length = asset.read_i32::<LE>()?;
-        let mut impls = Vec::with_capacity(impls_length as usize);
+        let mut impls = Vec::new();
 
         for _ in 0..impls_length {
             let mut properties_list = Vec::new();
diff --git a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
index 615ac35..8392d05 100644
--- a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
@@ -63,7 +63,7 @@ impl PerPlatformBoolProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_bool()?);
@@ -107,7 +107,7 @@ impl PerPlatformIntProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_i32::<LE>()?);
@@ -151,7 +151,7 @@ impl PerPlatformFloatProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(OrderedFloat(asset.read_f32::<LE>()?));
diff --git a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
index 7aa89b2..e65ed90 100644
--- a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
@@ -30,8 +30,7 @@ impl RawStructProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(RawStructProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/sampler_property.rs b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
index d54b6b3..c199c44 100644
--- a/unreal_asset/unreal_asset_properties/src/sampler_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
@@ -71,13 +71,13 @@ impl WeightedRandomSamplerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
@@ -135,13 +135,13 @@ impl SkeletalMeshAreaWeightedTriangleSampler {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/unknown_property.rs b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
index ade5731..0cfb9b2 100644
--- a/unreal_asset/unreal_asset_properties/src/unknown_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
@@ -34,8 +34,7 @@ impl UnknownProperty {
         serialized_type: FName,
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(UnknownProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
index 76d0d8f..92ec18b 100644
--- a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
@@ -186,7 +186,7 @@ impl FWorldTileInfo {
         let mut lod_list = None;
         if object_version >= ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST {
             let num_entries = asset.read_i32::<LE>()? as usize;
-            let mut list = Vec::with_capacity(num_entries);
+            let mut list = Vec::new();
             for _i in 0..num_entries {
                 list.push(FWorldTileLODInfo::new(asset)?);
             }
diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index 1739c28..3b24fa4 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -34,8 +34,11 @@ impl<R: Read + Seek> UnrealReadExt for R {
     }
 
     fn read_vec(&mut self, len: usize) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0; len];
-        self.read_exact(&mut buf)?;
+        // the length usually comes from a file, only allocate memory for bytes that exist
+        let mut buf = Vec::new();
+        if self.take(len as u64).read_to_end(&mut buf)? != len {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(buf)
     }
 
@@ -43,8 +46,9 @@ impl<R: Read + Seek> UnrealReadExt for R {
         &mut self,
         mut f: impl FnMut(&mut Self) -> io::Result<T>,
     ) -> io::Result<Vec<T>> {
-        let mut buf = Vec::with_capacity(self.read_u32::<LE>()? as usize);
-        for _ in 0..buf.capacity() {
+        let len = self.read_u32::<LE>()?;
+        let mut buf = Vec::new();
+        for _ in 0..len {
             buf.push(f(self)?);
         }
         Ok(buf)
-- 
2.43.0


From f1e51a09ea314722bfbd8d2885bc88cf6fc17d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:46 +0000
Subject: [PATCH 29/66] fix: a name changed in place is no longer found under
 its old content

---
 unreal_asset/unreal_asset_base/src/containers/name_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index c70f46e..e540f19 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -94,6 +94,14 @@ impl NameMap {
 
     /// Get a mutable name reference by an FName map index
     pub fn get_name_reference_mut(&mut self, index: i32) -> &mut String {
+        // the old name must no longer be found here, a search only trusts the lookup
+        let mut s = DefaultHasher::new();
+        self.name_map_index_list[index as usize].hash(&mut s);
+        let hash = s.finish();
+        if self.name_map_lookup.get_by_key(&hash) == Some(&index) {
+            self.name_map_lookup.remove_by_key(&hash);
+        }
+
         &mut self.name_map_index_list[index as usize]
     }
 
-- 
2.43.0


From 4d153e84f4e8be1b6358f88d5bb4ddad24962408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:08 +0000
Subject: [PATCH 30/66] fix: dependencies of a registry node are looked up
 among all nodes

---
 unreal_asset/unreal_asset_registry/src/objects/depends_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 4430fda..45acad0 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -460,7 +460,7 @@ impl DependsNode {
     ) -> Result<(), Error> {
         for _ in 0..num {
             let index = asset.read_i32::<LE>()?;
-            if index < 0 || nodes.len() <= index as usize {
+            if index < 0 || preallocated_depends_node_buffer.len() <= index as usize {
                 return Err(RegistryError::InvalidIndex(index).into());
             }
 
-- 
2.43.0


From 35cfef74c8efe0f8d8a03b1901368b5145abe38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:49 +0000
Subject: [PATCH 31/66] fix: registry dependencies with flags can be read and
 are saved as they were read

---
 unreal_asset/unreal_asset_registry/src/lib.rs |   3 +-
 .../src/objects/depends_node.rs               | 123 +++++-------------
 2 files changed, 35 insertions(+), 91 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 49045d8..d478565 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -137,7 +137,8 @@ impl AssetRegistryState {
 
             let end_pos = writer.position();
             writer.set_position(pos)?;
-            writer.write_i64::<LE>(end_pos as i64 - pos as i64)?;
+            // the size does not count the size field itself
+            writer.write_i64::<LE>(end_pos as i64 - pos as i64 - 8)?;
             writer.set_position(end_pos)?;
         }
 
diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 45acad0..dd4d245 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -2,14 +2,10 @@
 
 use bitvec::{order::Lsb0, prelude::BitVec};
 use byteorder::{ReadBytesExt, WriteBytesExt, LE};
-use lazy_static::lazy_static;
-
-use unreal_helpers::BitVecExt;
 
 use unreal_asset_base::{
     custom_version::FAssetRegistryVersionType,
     error::RegistryError,
-    flags::EDependencyProperty,
     reader::{ArchiveReader, ArchiveWriter},
     types::{FName, PackageIndexTrait},
     Error,
@@ -133,34 +129,19 @@ const PACKAGE_FLAG_SET_WIDTH: i32 = 1 << PACKAGE_FLAG_WIDTH;
 const MANAGE_FLAG_WIDTH: i32 = 1;
 const MANAGE_FLAG_SET_WIDTH: i32 = 1;
 
-lazy_static! {
-    static ref HARD_BIT: u8 = DependsNode::package_properties_to_byte(
-        EDependencyProperty::HARD | EDependencyProperty::GAME | EDependencyProperty::BUILD
-    );
-    static ref SOFT_BIT: u8 = DependsNode::package_properties_to_byte(
-        EDependencyProperty::GAME | EDependencyProperty::BUILD
-    );
-}
-
-#[allow(unused)]
+/// Every combination of package dependency properties which includes `EDependencyProperty::HARD`
+const HARD_PACKAGE_BITS: u32 = 0xaa;
 const HARD_MANAGE_BITS: u32 = 0x1;
 #[allow(unused)]
 const SOFT_MANAGE_BITS: u32 = 0x0;
 
 impl DependsNode {
-    /// Package `EDependencyProperty` enum into a byte
-    #[allow(clippy::identity_op)] // allow for clarity
-    fn package_properties_to_byte(properties: EDependencyProperty) -> u8 {
-        (0x1 * (properties & EDependencyProperty::HARD).bits() as u8)
-            | (0x2 * (properties & EDependencyProperty::GAME).bits() as u8)
-            | (0x4 * (properties & EDependencyProperty::BUILD).bits() as u8)
-    }
-
     /// Read `DependsNode` dependencies
     fn read_dependencies<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
         preallocated_depends_node_buffer: &[DependsNode],
         flag_set_width: i32,
+        hard_bits: u32,
     ) -> Result<LoadedDependencyNodes, Error> {
         let mut sort_indexes = Vec::new();
         let mut pointer_dependencies = Vec::new();
@@ -200,42 +181,34 @@ impl DependsNode {
             cmp.cmp(&0)
         });
 
-        let mut hard_dependencies = Vec::new();
-        let mut soft_dependencies = Vec::new();
-
-        for index in &sort_indexes {
-            let node = pointer_dependencies[*index as usize];
-            let package_flags = node.package_flags.as_ref().ok_or_else(|| {
-                Error::invalid_file(
-                    "No package flags on asset registry with version >= AddedDependencyFlags"
-                        .to_string(),
-                )
-            })?;
-
-            if package_flags
-                .get(*HARD_BIT as usize)
+        let flag = |read_index: i32, bit: i32| {
+            in_flag_bits
+                .get((read_index * flag_set_width + bit) as usize)
                 .as_deref()
                 .copied()
                 .unwrap_or(false)
-            {
-                hard_dependencies.push(node.clone());
-            } else {
-                soft_dependencies.push(node.clone());
-            }
-        }
+        };
+
+        // the flags are kept in the order of the dependencies: first the hard ones, then the soft ones
+        let (hard_indexes, soft_indexes): (Vec<i32>, Vec<i32>) =
+            sort_indexes.into_iter().partition(|index| {
+                (0..flag_set_width).any(|bit| hard_bits & (1 << bit) != 0 && flag(*index, bit))
+            });
 
         let mut out_flag_bits = BitVec::with_capacity(num_flag_bits as usize);
-        for write_index in 0..in_dependencies.len() as i32 {
-            let read_index = &sort_indexes[write_index as usize];
-
-            out_flag_bits.set_range_from_range(
-                write_index * flag_set_width,
-                flag_set_width,
-                &in_flag_bits,
-                read_index * flag_set_width,
-            );
+        for read_index in hard_indexes.iter().chain(soft_indexes.iter()) {
+            out_flag_bits.extend((0..flag_set_width).map(|bit| flag(*read_index, bit)));
         }
 
+        let nodes_at = |indexes: Vec<i32>| {
+            indexes
+                .into_iter()
+                .map(|index| pointer_dependencies[index as usize].clone())
+                .collect::<Vec<_>>()
+        };
+        let hard_dependencies = nodes_at(hard_indexes);
+        let soft_dependencies = nodes_at(soft_indexes);
+
         Ok((hard_dependencies, soft_dependencies, out_flag_bits))
     }
 
@@ -248,51 +221,19 @@ impl DependsNode {
         soft_dependencies: &[DependsNode],
     ) -> Result<(), Error> {
         let dependencies_length = hard_dependencies.len() as i32 + soft_dependencies.len() as i32;
-        let mut out_flag_bits = BitVec::<u32, Lsb0>::new();
 
         writer.write_i32::<LE>(dependencies_length)?;
 
-        for (i, hard_dependency) in hard_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(hard_dependency.index)?;
-
-            let index = out_flag_bits.len() as i32;
-            out_flag_bits.reserve(flag_set_width as usize);
-            out_flag_bits.set_range_from_range(
-                index,
-                flag_set_width,
-                flags,
-                i as i32 * flag_set_width,
-            );
-        }
-
-        let inital_soft_index = hard_dependencies.len() as i32;
-
-        for (i, soft_dependency) in soft_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(soft_dependency.index)?;
-
-            let index = out_flag_bits.len() as i32 + inital_soft_index;
-            out_flag_bits.reserve(flag_set_width as usize);
-            out_flag_bits.set_range_from_range(
-                index,
-                flag_set_width,
-                flags,
-                (i as i32 + inital_soft_index) * flag_set_width,
-            );
+        for dependency in hard_dependencies.iter().chain(soft_dependencies) {
+            writer.write_i32::<LE>(dependency.index)?;
         }
 
-        let bit_vec_size = ((out_flag_bits.len() + 31) / 32) as i32;
-        writer.write_i32::<LE>(bit_vec_size)?;
+        let mut out_flag_bits = flags.clone();
+        out_flag_bits.resize((dependencies_length * flag_set_width) as usize, false);
+        out_flag_bits.set_uninitialized(false);
 
-        for byte in out_flag_bits.chunks(8).map(|chunk| {
-            let mut byte = 0u8;
-            for i in 0..8 {
-                if chunk[i] {
-                    byte |= 1 << i;
-                }
-            }
-            byte
-        }) {
-            writer.write_u8(byte)?;
+        for word in out_flag_bits.as_raw_slice() {
+            writer.write_u32::<LE>(*word)?;
         }
 
         Ok(())
@@ -379,6 +320,7 @@ impl DependsNode {
             asset,
             preallocated_depends_node_buffer,
             PACKAGE_FLAG_SET_WIDTH,
+            HARD_PACKAGE_BITS,
         )?;
 
         let name_dependencies =
@@ -389,6 +331,7 @@ impl DependsNode {
                 asset,
                 preallocated_depends_node_buffer,
                 MANAGE_FLAG_SET_WIDTH,
+                HARD_MANAGE_BITS,
             )?;
 
         let referencers =
-- 
2.43.0


From 57681e6de4be2729bb3d2b41ebc76176d1899209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:49 +0000
Subject: [PATCH 32/66] fix: the number of imported classes of a package is
 saved

---
 .../unreal_asset_registry/src/objects/asset_package_data.rs      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
index ecce2b5..9374361 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
@@ -146,6 +146,7 @@ impl AssetPackageData {
                 RegistryError::version("Imported classes".to_string(), self.version)
             })?;
 
+            asset.write_i32::<LE>(imported_classes.len() as i32)?;
             for immported_class in imported_classes {
                 asset.write_fname(immported_class)?;
             }
-- 
2.43.0


From e9c6bf43cdacba2b5a360a0a9efb6fd7dc19278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:46 +0000
Subject: [PATCH 33/66] fix: invalid node counts and section sizes of a
 registry are errors

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 30 +++++++++++++++----
 .../src/objects/depends_node.rs               |  4 +--
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index d478565..58fa060 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -71,8 +71,7 @@ impl AssetRegistryState {
         *assets_data = asset.read_array(|asset: &mut Reader| AssetData::new(asset, version))?;
 
         if version < FAssetRegistryVersionType::AddedDependencyFlags {
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
-            *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
+            let local_num_depends_nodes = Self::read_num_depends_nodes(asset)?;
 
             for i in 0..local_num_depends_nodes {
                 depends_nodes.push(DependsNode::new(i, version));
@@ -86,10 +85,16 @@ impl AssetRegistryState {
             }
         } else {
             let dependency_section_size = asset.read_i64::<LE>()?;
-            let dependency_section_end = asset.position() + dependency_section_size as u64;
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
+            let dependency_section_end = asset
+                .position()
+                .checked_add_signed(dependency_section_size)
+                .ok_or_else(|| {
+                    Error::invalid_file(format!(
+                        "Invalid dependency section size {dependency_section_size}"
+                    ))
+                })?;
+            let local_num_depends_nodes = Self::read_num_depends_nodes(asset)?;
 
-            *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
             for i in 0..local_num_depends_nodes {
                 depends_nodes.push(DependsNode::new(i, version));
             }
@@ -110,6 +115,21 @@ impl AssetRegistryState {
         Ok(())
     }
 
+    /// Read the number of depends nodes, which can't be larger than the rest of the file
+    fn read_num_depends_nodes<Reader: ArchiveReader<impl PackageIndexTrait>>(
+        asset: &mut Reader,
+    ) -> Result<i32, Error> {
+        let num_depends_nodes = asset.read_i32::<LE>()?;
+        let remaining = asset.data_length()?.saturating_sub(asset.position());
+
+        if num_depends_nodes < 0 || num_depends_nodes as u64 > remaining {
+            return Err(Error::invalid_file(format!(
+                "Invalid number of depends nodes {num_depends_nodes}"
+            )));
+        }
+        Ok(num_depends_nodes)
+    }
+
     /// Write an `AssetRegistryState` to an asset
     fn write_data<Writer: ArchiveWriter<impl PackageIndexTrait>>(
         &self,
diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index dd4d245..6855080 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -432,8 +432,8 @@ impl DependsNode {
         };
         let num_referencers = asset.read_i32::<LE>()?;
 
-        let mut name_dependencies = Vec::with_capacity(num_name as usize);
-        let mut referencers = Vec::with_capacity(num_referencers as usize);
+        let mut name_dependencies = Vec::new();
+        let mut referencers = Vec::new();
 
         Self::read_node_array(
             asset,
-- 
2.43.0


From 42166f6605488b5c77181dad7c65dfb164d4a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:24 +0000
Subject: [PATCH 34/66] fix: github downloads report error statuses instead of
 saving the error page

---
 github_helpers/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/github_helpers/src/lib.rs b/github_helpers/src/lib.rs
index cf851f9..13a4d16 100644
--- a/github_helpers/src/lib.rs
+++ b/github_helpers/src/lib.rs
@@ -23,7 +23,8 @@ impl ReleaseAsset {
         let mut response = blocking::Client::new()
             .get(&self.browser_download_url)
             .headers(get_headers())
-            .send()?;
+            .send()?
+            .error_for_status()?;
 
         io::copy(&mut response, file)?;
 
@@ -50,7 +51,8 @@ pub fn get_latest_release(repo_url: &str) -> Result<Release, Box<dyn Error>> {
             "https://api.github.com/repos/{repo_url}/releases/latest"
         ))
         .headers(headers)
-        .send()?;
+        .send()?
+        .error_for_status()?;
 
     let text = api_response.text()?;
     let release: Release = serde_json::from_str(&text)?;
-- 
2.43.0


From 5918c10cd45c28edb4af1bae66120ebb8f3306a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:24 +0000
Subject: [PATCH 35/66] fix: the description of a mod is written to the
 description column of the mod list

---
 unreal_mod_integrator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index f2668ac..24b362f 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -230,7 +230,7 @@ fn bake_mod_data(asset: &mut Asset<Cursor<&[u8]>>, mods: &Vec<Metadata>) -> Resu
                 name: columns[2].clone(),
                 ancestry: Ancestry::default(),
                 property_guid: None,
-                duplication_index: 9,
+                duplication_index: 0,
                 value: Some(mod_data.description.clone().unwrap_or_default()),
             }
             .into(),
-- 
2.43.0


From d227d1744830cb12cec1f7be0cc03affeeb91d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 36/66] fix: integrating fails when a mod cannot be opened or
 written instead of leaving it out

---
 unreal_mod_integrator/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index 24b362f..1475963 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -401,11 +401,13 @@ pub fn integrate_mods<
         .chain(core_mods)
         .chain(enabled_baked_mods)
         .filter_map(|e| match e {
-            IntegratorMod::File(file_mod) => File::open(&file_mod.path).ok(),
-            IntegratorMod::Baked(baked_mod) => baked_mod.write(paks_path).ok(),
+            IntegratorMod::File(file_mod) => {
+                Some(File::open(&file_mod.path).map_err(Error::from))
+            }
+            IntegratorMod::Baked(baked_mod) => Some(baked_mod.write(paks_path)),
             _ => None,
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>, Error>>()?;
 
     let mut mod_paks = Vec::new();
     let mut read_mods = Vec::new();
-- 
2.43.0


From 37603ae35bec592bd2e86d1c9b2cd88d9fcfe5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:44 +0000
Subject: [PATCH 37/66] fix: an invalid version requirement in the metadata is
 an error instead of a panic

---
 unreal_mod_metadata/src/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index f08b941..bcfa4f7 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -32,7 +32,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
 
         fn visit_map<M>(self, map: M) -> Result<T, M::Error>
-- 
2.43.0


From 96a150a7ece6f655baa26439a09015ec28953987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:20 +0000
Subject: [PATCH 38/66] fix: the config is replaced as a whole and only after
 it was read

---
 unreal_mod_manager/src/background_work.rs |  8 ++--
 unreal_mod_manager/src/lib.rs             | 12 +++++-
 unreal_mod_manager/src/mod_config.rs      | 50 +++++++++++++++++------
 3 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index bbc3fd5..5ee38ec 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -26,7 +26,7 @@ use unreal_pak::PakReader;
 use crate::config;
 use crate::error::{ModLoaderError, ModLoaderWarning};
 use crate::game_mod::{self, GameModVersion};
-use crate::mod_config::{load_config, write_config};
+use crate::mod_config::load_config;
 use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
     index_file::{download_index_file, IndexFileModVersion},
@@ -167,7 +167,7 @@ where
         data_guard.warnings.extend(warnings);
 
         // load config
-        load_config(&mut data_guard);
+        load_config(&mut data_guard)?;
 
         // debug!("{:#?}", data_guard.game_mods);
         Ok(())
@@ -638,7 +638,7 @@ where
                     *background_thread_data.last_integration_time.lock() = Instant::now();
 
                     // update config file
-                    write_config(&background_thread_data.data.lock());
+                    background_thread_data.data.lock().save_config();
 
                     Ok(warnings)
                 };
@@ -710,7 +710,7 @@ where
             }
             BackgroundThreadMessage::WriteConfig => {
                 // update config file
-                write_config(&background_thread_data.data.lock());
+                background_thread_data.data.lock().save_config();
             }
             BackgroundThreadMessage::Exit => {
                 break;
diff --git a/unreal_mod_manager/src/lib.rs b/unreal_mod_manager/src/lib.rs
index ef90c57..6fd719e 100644
--- a/unreal_mod_manager/src/lib.rs
+++ b/unreal_mod_manager/src/lib.rs
@@ -82,6 +82,7 @@ pub(crate) struct ModLoaderAppData {
     pub game_install_path: Option<PathBuf>,
 
     pub game_build: Option<GameBuild>,
+    pub config_loaded: bool,
     pub refuse_mismatched_connections: bool,
     pub files_to_process: Vec<FileToProcess>,
 
@@ -124,12 +125,21 @@ impl ModLoaderAppData {
 
             self.selected_game_platform = Some(platform.to_string());
 
-            write_config(self);
+            self.save_config();
             return Ok(());
         }
         Err(())
     }
 
+    pub fn save_config(&mut self) {
+        if let Err(err) = write_config(self) {
+            self.warnings.push(ModLoaderWarning::io_error_with_message(
+                "Writing config file".to_owned(),
+                err,
+            ));
+        }
+    }
+
     #[allow(clippy::borrowed_box)]
     pub fn get_install_manager(&self) -> Option<&Box<dyn InstallManager>> {
         if let Some(platform) = &self.selected_game_platform {
diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index bb42aad..39a21f5 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -1,11 +1,13 @@
 use std::collections::HashMap;
 use std::fs;
+use std::io;
 
 use log::{debug, error, warn};
 use semver::Version;
 use serde::{Deserialize, Serialize};
 use serde_json::Value;
 
+use crate::error::ModLoaderError;
 use crate::game_mod::SelectedVersion;
 use crate::profile::parse_profile_config;
 use crate::ModLoaderAppData;
@@ -34,25 +36,35 @@ struct ModConfigData {
     version: String,
 }
 
-pub(crate) fn load_config(data: &mut ModLoaderAppData) {
+pub(crate) fn load_config(data: &mut ModLoaderAppData) -> Result<(), ModLoaderError> {
     macro_rules! bail {
         () => {{
             warn!("Error reading config file!");
+            data.config_loaded = true;
             if data.set_game_platform("Steam").is_err() {
-                let first_platform = data.install_managers.keys().next().unwrap();
-                let _ = data.set_game_platform(first_platform);
+                if let Some(&first_platform) = data.install_managers.keys().next() {
+                    let _ = data.set_game_platform(first_platform);
+                }
             }
-            return;
+            return Ok(());
         }};
     }
 
     let config_path = data.mods_path.as_ref().unwrap().join("modconfig.json");
 
-    if !config_path.is_file() {
-        bail!()
-    }
+    let config_data = match fs::read(&config_path) {
+        Ok(config_data) => config_data,
+        Err(err) if err.kind() == io::ErrorKind::NotFound => bail!(),
+        // do not continue with the defaults, they would overwrite the config file
+        Err(err) => {
+            return Err(ModLoaderError::io_error_with_message(
+                "read config file".to_owned(),
+                err,
+            ))
+        }
+    };
 
-    let config: ModConfig = match serde_json::from_str(&fs::read_to_string(&config_path).unwrap()) {
+    let config: ModConfig = match serde_json::from_slice(&config_data) {
         Ok(config) => config,
         Err(err) => {
             error!("{}", err);
@@ -105,17 +117,26 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
         }
     };
 
+    data.config_loaded = true;
+
     if let Some(ref selected_game_platform) = config.selected_game_platform {
         let _ = data.set_game_platform(selected_game_platform);
     } else if data.set_game_platform("Steam").is_err() {
-        let first_platform = data.install_managers.keys().next().unwrap();
-        let _ = data.set_game_platform(first_platform);
+        if let Some(&first_platform) = data.install_managers.keys().next() {
+            let _ = data.set_game_platform(first_platform);
+        }
     }
 
     debug!("Loaded config");
+    Ok(())
 }
 
-pub(crate) fn write_config(data: &ModLoaderAppData) {
+pub(crate) fn write_config(data: &ModLoaderAppData) -> io::Result<()> {
+    // never replace a config that has not been read
+    if !data.config_loaded {
+        return Ok(());
+    }
+
     let config_path = data.mods_path.as_ref().unwrap().join("modconfig.json");
     let mut config = ModConfig {
         selected_game_platform: data.selected_game_platform.clone(),
@@ -143,7 +164,12 @@ pub(crate) fn write_config(data: &ModLoaderAppData) {
     }
 
     let config_str = serde_json::to_string(&config).unwrap();
-    fs::write(config_path, config_str).unwrap();
+
+    // the config file is only replaced when the new one is complete
+    let temp_path = config_path.with_extension("json.tmp");
+    fs::write(&temp_path, config_str)?;
+    fs::rename(temp_path, config_path)?;
 
     debug!("Wrote config");
+    Ok(())
 }
-- 
2.43.0


From 0da76d15ee899261b92cdb652728ea619b19d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:20 +0000
Subject: [PATCH 39/66] fix: the window can be closed after a failed startup

---
 unreal_mod_manager/src/background_work.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 5ee38ec..9007446 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -186,16 +186,22 @@ where
         start.elapsed().as_millis()
     );
 
+    let startup_failed = background_thread_data.data.lock().error.is_some();
     let mods_path = background_thread_data
         .data
         .lock()
         .mods_path
         .clone()
-        .unwrap();
+        .unwrap_or_default();
 
     let mut last_integration_time = None;
 
     while let Ok(message) = receiver.recv() {
+        // after a critical error the only thing left to do is to exit
+        if startup_failed && !matches!(message, BackgroundThreadMessage::Exit) {
+            continue;
+        }
+
         match message {
             BackgroundThreadMessage::Import(files_to_process) => {
                 background_thread_data
-- 
2.43.0


From 942048466930a9912249b630079ff2cbc7a6e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:20 +0000
Subject: [PATCH 40/66] fix: settings are saved on exit and when no mods are
 enabled

---
 unreal_mod_manager/src/background_work.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 9007446..55bb63b 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -361,6 +361,7 @@ where
 
                 if mods_to_install.is_empty() {
                     debug!("Aborting Inteagration because no mods are enabled.");
+                    background_thread_data.data.lock().save_config();
                     background_thread_data
                         .working
                         .store(false, Ordering::Release);
@@ -724,6 +725,9 @@ where
         }
     }
 
+    // the settings may have changed since the last successful integration
+    background_thread_data.data.lock().save_config();
+
     debug!("Background thread exiting...");
     background_thread_data
         .ready_exit
-- 
2.43.0


From afef3811c9d3be4c983fe0a4a41a5f3ab316df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:20 +0000
Subject: [PATCH 41/66] fix: a selected version or a path that is not available
 is no panic

---
 unreal_mod_manager/src/background_work.rs     | 32 +++++++++++++++----
 .../src/mod_processing/version_handling.rs    |  8 +++--
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 55bb63b..1a10ec9 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -295,7 +295,10 @@ where
 
                 let mut data_guard = background_thread_data.data.lock();
 
-                let paks_path = data_guard.paks_path.as_ref().unwrap().clone();
+                let paks_path = match data_guard.paks_path {
+                    Some(ref paks_path) => paks_path.clone(),
+                    None => continue,
+                };
                 let install_path = match data_guard.game_install_path {
                     Some(ref install_path) => install_path.clone(),
                     None => continue,
@@ -337,17 +340,34 @@ where
                 background_thread_data.use_cpp_loader = false;
 
                 // gather mods to be installed
-                let mut mods_to_install = data_guard
+                let mods_to_install = data_guard
                     .game_mods
                     .iter()
                     .filter(|(_, m)| m.enabled)
-                    .map(|(_, m)| {
+                    .map(|(mod_id, m)| {
                         m.versions
                             .get(&m.selected_version.clone().unwrap())
-                            .unwrap()
-                            .clone()
+                            .cloned()
+                            .ok_or_else(|| {
+                                ModLoaderWarning::other(format!(
+                                    "Version {} of mod {:?} is not available",
+                                    m.selected_version, mod_id
+                                ))
+                            })
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<Result<Vec<_>, _>>();
+
+                let mut mods_to_install = match mods_to_install {
+                    Ok(mods_to_install) => mods_to_install,
+                    Err(err) => {
+                        data_guard.warnings.push(err);
+                        data_guard.failed = true;
+                        background_thread_data
+                            .working
+                            .store(false, Ordering::Release);
+                        continue;
+                    }
+                };
 
                 drop(data_guard);
 
diff --git a/unreal_mod_manager/src/mod_processing/version_handling.rs b/unreal_mod_manager/src/mod_processing/version_handling.rs
index d3b37c4..5a61aed 100644
--- a/unreal_mod_manager/src/mod_processing/version_handling.rs
+++ b/unreal_mod_manager/src/mod_processing/version_handling.rs
@@ -30,10 +30,12 @@ pub(crate) fn set_mod_data_from_version(data: &mut ModLoaderAppData, filter: &[S
             continue;
         }
 
-        let version_data = game_mod
+        let Some(version_data) = game_mod
             .versions
             .get(&game_mod.selected_version.clone().unwrap())
-            .unwrap();
+        else {
+            continue;
+        };
         if let Some(ref metadata) = version_data.metadata {
             game_mod.name = metadata.name.to_owned();
             game_mod.author = metadata.author.to_owned();
@@ -57,7 +59,7 @@ pub(crate) fn set_mod_data_from_version(data: &mut ModLoaderAppData, filter: &[S
                 .as_ref()
                 .unwrap()
                 .join(version_data.file_name.clone());
-            game_mod.size = fs::metadata(path).unwrap().len();
+            game_mod.size = fs::metadata(path).map(|e| e.len()).unwrap_or(0);
         }
     }
 }
-- 
2.43.0


From d3357672779f665c339246b758e00d61bfb59564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:20 +0000
Subject: [PATCH 42/66] fix: invalid versions in mod files and index files are
 warnings instead of panics

---
 .../src/mod_processing/index_file.rs             | 16 ++++++++++------
 .../src/mod_processing/pakfile_reading.rs        |  6 ++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index bc049a9..8f4992e 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -41,7 +41,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
     }
     deserializer.deserialize_any(StringDeserializer(PhantomData))
@@ -127,11 +127,15 @@ pub(crate) fn download_index_file(
         ));
     }
 
-    let index_file =
-        serde_json::from_str::<IndexFile>(response.text().unwrap().as_str()).map_err(|err| {
-            warn!("Failed to parse index file for {}: {}", mod_id.clone(), err);
-            ModLoaderWarning::invalid_index_file(mod_id.clone())
-        })?;
+    let index_file = response.text().map_err(|err| {
+        warn!("Failed to download index file for {:?}, {}", mod_id, err);
+        ModLoaderWarning::index_file_download_failed(mod_id.clone(), err)
+    })?;
+
+    let index_file = serde_json::from_str::<IndexFile>(index_file.as_str()).map_err(|err| {
+        warn!("Failed to parse index file for {}: {}", mod_id.clone(), err);
+        ModLoaderWarning::invalid_index_file(mod_id.clone())
+    })?;
 
     match index_file.mods.get(&mod_id) {
         Some(index_file_mod) => Ok((mod_id, index_file_mod.clone())),
diff --git a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
index 35ee4c9..599295f 100644
--- a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
+++ b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
@@ -83,6 +83,12 @@ pub(crate) fn read_pak_files(
                 return Err(ModLoaderWarning::invalid_metadata(file_name));
             }
 
+            // check that the version is valid
+            if Version::parse(version).is_err() {
+                warn!("Invalid version: {:?}", version);
+                return Err(ModLoaderWarning::invalid_version(file_name));
+            }
+
             let mod_id = metadata.mod_id.to_owned();
 
             if !mods_read.contains_key(&mod_id) {
-- 
2.43.0


From 3abd3bba5f6a3d638c98d6534ee454eb60abd767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:20 +0000
Subject: [PATCH 43/66] fix: a downloaded mod gets its validated name only when
 it is complete

---
 unreal_mod_manager/src/background_work.rs    | 44 ++++++++++++++++----
 unreal_mod_manager/src/mod_processing/mod.rs |  2 +-
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 1a10ec9..6b9c678 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -30,7 +30,7 @@ use crate::mod_config::load_config;
 use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
     index_file::{download_index_file, IndexFileModVersion},
-    process_modfiles,
+    process_modfiles, verify,
 };
 use crate::update_info::UpdateInfo;
 use crate::FileToProcess;
@@ -70,26 +70,52 @@ fn download_mod(
     mods_path: &Path,
     mod_version: &IndexFileModVersion,
 ) -> Result<(Metadata, PathBuf), ModLoaderWarning> {
-    // this is safe because the filename has already been validated
+    // file names of dependencies come straight from an index file
+    if !verify::verify_mod_file_name(&mod_version.file_name) {
+        return Err(ModLoaderWarning::invalid_mod_file_name(
+            mod_version.file_name.clone(),
+        ));
+    }
+
     let mut response = reqwest::blocking::get(mod_version.download_url.as_str())
+        .and_then(|e| e.error_for_status())
         .map_err(|e| ModLoaderWarning::download_failed(mod_version.file_name.clone(), e))?;
 
+    // the mod only gets its name when it is complete
     let file_path = mods_path.join(mod_version.file_name.clone());
-    let mut file = fs::File::create(&file_path)?;
+    let temp_path = mods_path.join(format!("{}.part", mod_version.file_name));
 
-    io::copy(&mut response, &mut file)?;
+    let metadata = download_to(&mut response, &temp_path, &mod_version.file_name)
+        .and_then(|metadata| {
+            fs::rename(&temp_path, &file_path)?;
+            Ok(metadata)
+        })
+        .map_err(|err| {
+            let _ = fs::remove_file(&temp_path);
+            err
+        })?;
+
+    Ok((metadata, file_path))
+}
+
+fn download_to(
+    response: &mut impl io::Read,
+    path: &Path,
+    file_name: &str,
+) -> Result<Metadata, ModLoaderWarning> {
+    let mut file = fs::File::create(path)?;
+
+    io::copy(response, &mut file)?;
 
     drop(file);
-    let file = fs::File::open(&file_path)?;
+    let file = fs::File::open(path)?;
 
     let mut pak = PakReader::new(&file);
     pak.load_index()?;
 
     let metadata = pak.read_entry(&String::from("metadata.json"))?;
-    let metadata = unreal_mod_metadata::from_slice(&metadata)
-        .map_err(|_| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))?;
-
-    Ok((metadata, file_path))
+    unreal_mod_metadata::from_slice(&metadata)
+        .map_err(|_| ModLoaderWarning::invalid_metadata(file_name.to_owned()))
 }
 
 fn download_mods(mods_path: &Path, files_to_download: &[GameModVersion]) -> Vec<ModLoaderWarning> {
diff --git a/unreal_mod_manager/src/mod_processing/mod.rs b/unreal_mod_manager/src/mod_processing/mod.rs
index 355fcdb..fcd803b 100644
--- a/unreal_mod_manager/src/mod_processing/mod.rs
+++ b/unreal_mod_manager/src/mod_processing/mod.rs
@@ -13,7 +13,7 @@ use pakfile_reading::{insert_mods_from_readdata, read_pak_files};
 mod version_handling;
 use version_handling::{auto_pick_versions, set_mod_data_from_version};
 
-mod verify;
+pub(crate) mod verify;
 
 // TODO this should at somepoint be changed to `-> Result<Vec<ModLoaderWarning>, ModLoaderError>`
 // to properly convey that some things might critically fail.
-- 
2.43.0


From b942cad6c2d57f6734ed8677c638948f1d770b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:15 +0000
Subject: [PATCH 44/66] fix: importing a mod that is already in the mods
 directory does not destroy it

---
 unreal_mod_manager/src/background_work.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 6b9c678..cb01a3b 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -240,13 +240,19 @@ where
                     .iter()
                     .filter_map(|file| {
                         let file_path = &file.path;
-                        let file_name = file_path.file_name().unwrap();
+                        let file_name = file_path.file_name()?;
 
-                        // copy the file to the mods directory
+                        // copy the file to the mods directory, it may already be there
                         let new_file_path = mods_path.join(file_name);
-                        match fs::copy(file_path, &new_file_path) {
+                        let mut temp_path = new_file_path.clone().into_os_string();
+                        temp_path.push(".part");
+
+                        match fs::copy(file_path, &temp_path)
+                            .and_then(|_| fs::rename(&temp_path, &new_file_path))
+                        {
                             Ok(_) => Some(FileToProcess::new(new_file_path, file.newly_added)),
                             Err(err) => {
+                                let _ = fs::remove_file(&temp_path);
                                 data_guard
                                     .warnings
                                     .push(ModLoaderWarning::io_error_with_message(
-- 
2.43.0


From 9c2fe78211862fc3abd6621ccde3e1f8da577856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:15 +0000
Subject: [PATCH 45/66] fix: mods are always integrated after an import or a
 removal

---
 unreal_mod_manager/src/background_work.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index cb01a3b..b20ae3e 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -273,6 +273,13 @@ where
                     process_modfiles(&files_to_process, &background_thread_data.data, true);
                 debug!("warnings: {:?}", warnings);
                 background_thread_data.data.lock().warnings.extend(warnings);
+
+                background_thread_data
+                    .working
+                    .store(false, Ordering::Release);
+
+                // the imported mods are not part of any integration so far
+                last_integration_time = None;
             }
             BackgroundThreadMessage::RemoveMod(mod_id) => {
                 let mut data_guard = background_thread_data.data.lock();
@@ -296,6 +303,9 @@ where
 
                 data_guard.game_mods.remove(&mod_id);
                 data_guard.warnings.extend(deletion_warnings);
+
+                // the last integration may still contain the removed mod
+                last_integration_time = None;
             }
             BackgroundThreadMessage::UpdateApp => {
                 let newer_update = background_thread_data.newer_update.lock();
-- 
2.43.0


From 6834cc46541d8a58993f4a3fe785f3819b62aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:15 +0000
Subject: [PATCH 46/66] fix: showing a mod while it is removed does not panic

---
 unreal_mod_manager/src/app.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unreal_mod_manager/src/app.rs b/unreal_mod_manager/src/app.rs
index 47e969b..48d45f3 100644
--- a/unreal_mod_manager/src/app.rs
+++ b/unreal_mod_manager/src/app.rs
@@ -482,10 +482,14 @@ impl ModLoaderApp {
     fn show_bottom(&self, ui: &mut egui::Ui) {
         let data = self.data.lock();
 
-        match self.selected_mod_id {
-            Some(ref mod_id) => {
-                let game_mod = data.game_mods.get(mod_id).unwrap();
-
+        // the selected mod may have been removed in the meantime
+        let selected_mod = self
+            .selected_mod_id
+            .as_ref()
+            .and_then(|mod_id| data.game_mods.get_key_value(mod_id));
+
+        match selected_mod {
+            Some((mod_id, game_mod)) => {
                 // ui.horizontal(|ui| {
                 //     ui.label("Name:");
                 ui.heading(&game_mod.name);
-- 
2.43.0


From df461a8e5d5743b5a3b0155578af96dc93cf752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:15 +0000
Subject: [PATCH 47/66] fix: a failed update is reported instead of ending the
 background thread

---
 unreal_mod_manager/src/background_work.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index b20ae3e..0432f71 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -312,18 +312,32 @@ where
                 if newer_update.is_some() {
                     drop(newer_update);
                     let update_progress = Arc::clone(&background_thread_data.update_progress);
-                    config
+                    let update_result = config
                         .update_modloader(Box::new(move |progress| {
                             update_progress
                                 .store(f32::round(progress * 100.0) as i32, Ordering::Release);
                         }))
-                        .unwrap();
+                        .and_then(|_| {
+                            env::current_exe()
+                                .and_then(|exe| Command::new(exe).spawn())
+                                .map_err(|err| {
+                                    ModLoaderError::io_error_with_message(
+                                        "restart after the update".to_owned(),
+                                        err,
+                                    )
+                                })
+                        });
                     background_thread_data
                         .should_update
                         .store(false, Ordering::Release);
 
-                    Command::new(env::current_exe().unwrap()).spawn().unwrap();
-                    break;
+                    match update_result {
+                        Ok(_) => break,
+                        Err(err) => {
+                            error!("Update failed: {}", err);
+                            background_thread_data.data.lock().error = Some(err);
+                        }
+                    }
                 }
             }
             BackgroundThreadMessage::Integrate(time) => {
-- 
2.43.0


From 31a3591ef3de27a33eaf3d9ff85cc1269bce361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:42 +0000
Subject: [PATCH 48/66] fix: dependencies are resolved against their own
 versions

---
 unreal_mod_manager/src/background_work.rs     | 69 ++++++++++++++-----
 .../src/mod_processing/dependencies.rs        | 27 +++-----
 2 files changed, 59 insertions(+), 37 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 0432f71..58bb149 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::env;
 use std::fs::{self, File};
 use std::io::{self, Error};
@@ -18,14 +18,15 @@ use semver::Version;
 use sha2::{Digest, Sha256};
 
 use unreal_mod_integrator::{
-    integrate_mods, FileMod, IntegratorConfig, IntegratorModInfo, INTEGRATOR_PAK_FILE_NAME,
+    integrate_mods, FileMod, IntegratorConfig, IntegratorMod, IntegratorModInfo,
+    INTEGRATOR_PAK_FILE_NAME,
 };
 use unreal_mod_metadata::Metadata;
 use unreal_pak::PakReader;
 
 use crate::config;
 use crate::error::{ModLoaderError, ModLoaderWarning};
-use crate::game_mod::{self, GameModVersion};
+use crate::game_mod::GameModVersion;
 use crate::mod_config::load_config;
 use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
@@ -108,9 +109,14 @@ fn download_to(
     io::copy(response, &mut file)?;
 
     drop(file);
-    let file = fs::File::open(path)?;
+    read_metadata(&fs::File::open(path)?, file_name)
+}
 
-    let mut pak = PakReader::new(&file);
+fn read_metadata(
+    pak: impl io::Read + io::Seek,
+    file_name: &str,
+) -> Result<Metadata, ModLoaderWarning> {
+    let mut pak = PakReader::new(pak);
     pak.load_index()?;
 
     let metadata = pak.read_entry(&String::from("metadata.json"))?;
@@ -467,19 +473,9 @@ where
                         .iter()
                         .filter(|(_, game_mod)| game_mod.enabled)
                     {
-                        let selected_version = match &enabled_mod.selected_version {
-                            game_mod::SelectedVersion::Latest(version) => version,
-                            game_mod::SelectedVersion::LatestIndirect(_) => {
-                                let mut versions =
-                                    enabled_mod.versions.keys().collect::<Vec<&Version>>();
-                                versions.sort();
-                                *versions.last().unwrap()
-                            }
-                            game_mod::SelectedVersion::Specific(version) => version,
-                        };
                         first_round.push(ModWithDependencies::new(
                             mod_id.clone(),
-                            Vec::from([selected_version.clone()]),
+                            Vec::from([enabled_mod.selected_version.clone().unwrap()]),
                             enabled_mod.dependencies.clone(),
                         ));
                     }
@@ -490,10 +486,39 @@ where
                     let mut dependencies = graph.add_mods(&first_round);
 
                     let mut next_round = Vec::new();
+                    let mut resolved = HashSet::new();
+                    let baked_mods = config.get_integrator_config().get_baked_mods();
 
                     loop {
                         next_round.clear();
                         for (mod_id, (version_req, downloads)) in &dependencies {
+                            // the version of an enabled mod has already been selected
+                            if first_round.iter().any(|e| e.mod_id == *mod_id) {
+                                continue;
+                            }
+
+                            // mods that come with the mod loader do not need to be downloaded
+                            let baked_mod = baked_mods.iter().find_map(|e| match e {
+                                IntegratorMod::Baked(e) if e.mod_id == *mod_id => Some(e),
+                                _ => None,
+                            });
+                            if let Some(baked_mod) = baked_mod {
+                                let metadata = read_metadata(
+                                    io::Cursor::new(baked_mod.data),
+                                    baked_mod.filename,
+                                )?;
+                                let version = Version::parse(&metadata.mod_version)
+                                    .map_err(|_| ModLoaderWarning::invalid_version(mod_id.clone()))?;
+                                if resolved.insert((mod_id.clone(), version.clone())) {
+                                    next_round.push(ModWithDependencies::new(
+                                        mod_id.clone(),
+                                        Vec::from([version]),
+                                        metadata.dependencies,
+                                    ));
+                                }
+                                continue;
+                            }
+
                             let entry = download_pool
                                 .entry(mod_id.clone())
                                 .or_insert_with(HashMap::new);
@@ -511,9 +536,15 @@ where
 
                             let matching_version = entry
                                 .iter()
-                                .find(|(version, _)| version_req.matches(version));
+                                .filter(|(version, _)| version_req.matches(version))
+                                .max_by_key(|(version, _)| *version);
+
+                            if let Some((version, index_version)) = matching_version {
+                                // mods may depend on each other
+                                if !resolved.insert((mod_id.clone(), version.clone())) {
+                                    continue;
+                                }
 
-                            if let Some((_, index_version)) = matching_version {
                                 let file = download_mod(&mods_path, index_version);
 
                                 if let Ok((metadata, _)) = file {
@@ -542,7 +573,7 @@ where
                     }
 
                     let mut mods_to_integrate = Vec::new();
-                    for baked_mod in config.get_integrator_config().get_baked_mods() {
+                    for baked_mod in baked_mods {
                         if to_download.contains_key(&baked_mod.get_mod_id()) {
                             to_download.remove(&baked_mod.get_mod_id());
                             mods_to_integrate.push(baked_mod);
diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 031f11b..5fa5bb0 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -42,21 +42,8 @@ pub struct DependencyGraph {
 
 // https://github.com/dtolnay/semver/issues/170#issuecomment-734284639
 fn intersect_requirements(reqs: impl IntoIterator<Item = VersionReq>) -> VersionReq {
-    let reqs: Vec<_> = reqs
-        .into_iter()
-        .filter_map(|req| {
-            if req == VersionReq::STAR {
-                None
-            } else {
-                Some(req.to_string())
-            }
-        })
-        .collect();
-
-    if reqs.is_empty() {
-        VersionReq::STAR
-    } else {
-        reqs.join(", ").parse().unwrap()
+    VersionReq {
+        comparators: reqs.into_iter().flat_map(|req| req.comparators).collect(),
     }
 }
 
@@ -97,7 +84,7 @@ impl DependencyGraph {
             for (dependency_mod_id, dependency) in &game_mod.dependencies {
                 let dependency_node = self.get_or_add_mod(GraphMod {
                     mod_id: dependency_mod_id.clone(),
-                    versions: game_mod.versions.clone(),
+                    versions: Vec::new(),
                     downloads: match dependency.download.as_ref() {
                         Some(e) => Vec::from([e.clone()]),
                         None => Vec::new(),
@@ -140,7 +127,11 @@ impl DependencyGraph {
             let requirement = intersect_requirements(requirements);
 
             let weight = self.graph.node_weight(node).unwrap();
-            let matching_version = weight.versions.iter().find(|e| requirement.matches(e));
+            let matching_version = weight
+                .versions
+                .iter()
+                .filter(|e| requirement.matches(e))
+                .max();
 
             match matching_version {
                 Some(matching_version) => {
@@ -155,7 +146,7 @@ impl DependencyGraph {
                                 (
                                     self.graph.node_weight(e).unwrap().mod_id.clone(),
                                     self.graph
-                                        .edges_connecting(node, e)
+                                        .edges_connecting(e, node)
                                         .next()
                                         .unwrap()
                                         .weight(),
-- 
2.43.0


From 20caf025a5e22fad867f562e5e80ebe5304270d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 49/66] fix: mods that have just been downloaded have to be
 trusted, too

---
 unreal_mod_manager/src/background_work.rs | 24 +++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 58bb149..a197243 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -636,17 +636,21 @@ where
                     let mods_to_install = mods_to_install
                         .into_iter()
                         .map(|e| {
-                            (
-                                data_guard
-                                    .game_mods
-                                    .get(&e.mod_id)
-                                    .unwrap()
-                                    .selected_version
-                                    .to_string(),
-                                e,
-                            )
+                            let game_mod = data_guard.game_mods.get(&e.mod_id).ok_or_else(|| {
+                                ModLoaderWarning::invalid_metadata(e.file_name.clone())
+                            })?;
+
+                            // mods that have just been downloaded have metadata by now
+                            let version = game_mod
+                                .versions
+                                .values()
+                                .find(|v| v.file_name == e.file_name)
+                                .cloned()
+                                .unwrap_or(e);
+
+                            Ok((game_mod.selected_version.to_string(), version))
                         })
-                        .collect::<Vec<_>>();
+                        .collect::<Result<Vec<_>, ModLoaderWarning>>()?;
 
                     drop(data_guard);
 
-- 
2.43.0


From e0be41af35173928007b1d05002a4cc6f90ec6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 50/66] fix: the game is only started with trusted and
 integrated mods

---
 unreal_mod_manager/src/app.rs             |  5 +++++
 unreal_mod_manager/src/background_work.rs | 16 ++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/unreal_mod_manager/src/app.rs b/unreal_mod_manager/src/app.rs
index 48d45f3..ff69d25 100644
--- a/unreal_mod_manager/src/app.rs
+++ b/unreal_mod_manager/src/app.rs
@@ -153,6 +153,11 @@ impl App for ModLoaderApp {
 
         if update_cancelled {
             *self.newer_update.lock() = None;
+
+            // there was no integration because of the update
+            let _ = self
+                .background_tx
+                .send(BackgroundThreadMessage::integrate());
         }
 
         let mut data = self.data.lock();
diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index a197243..fbf43a6 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -369,6 +369,7 @@ where
                 let cpp_loader_extract_path = data_guard.cpp_loader_extract_path.clone();
 
                 data_guard.failed = false;
+                data_guard.untrusted_mods.clear();
 
                 // remove all old files
                 if let Err(err) = fs::remove_dir_all(&paks_path) {
@@ -379,6 +380,8 @@ where
                                 "Removing old paks directory failed".to_owned(),
                                 err,
                             ));
+                        data_guard.failed = true;
+                        continue;
                     }
                 };
                 if let Err(err) = fs::create_dir_all(&paks_path) {
@@ -792,6 +795,19 @@ where
                         return Err(ModLoaderWarning::other("No install manager".to_string()));
                     };
 
+                    // this may have changed since the user pressed play
+                    if data.failed || last_integration_time.is_none() {
+                        return Err(ModLoaderWarning::other(
+                            "The game was not started because the mods are not integrated"
+                                .to_string(),
+                        ));
+                    }
+                    if !data.untrusted_mods.is_empty() {
+                        return Err(ModLoaderWarning::other(
+                            "The game was not started because of untrusted mods".to_string(),
+                        ));
+                    }
+
                     #[cfg(feature = "cpp_loader")]
                     if background_thread_data.use_cpp_loader {
                         let config_location = install_manager.get_config_location()?;
-- 
2.43.0


From 5c8be17b8920dc96b5db021112e01ed751a98cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:21 +0000
Subject: [PATCH 51/66] fix: mods that could not be read after their download
 have to be trusted, too

---
 unreal_mod_manager/src/background_work.rs | 32 +++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index fbf43a6..9f34932 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -663,23 +663,23 @@ where
                             .map(|_| ())?;
 
                         // extract DLLS
-                        if let Some(ref metadata) = mod_version.metadata {
-                            if !metadata.cpp_loader_dlls.is_empty() {
-                                let mut hasher = Sha256::new();
-                                let mut file = File::open(&dst_path)?;
-                                let _ = io::copy(&mut file, &mut hasher)?;
-                                let hash = hasher.finalize()[..].to_vec();
-
-                                if !trusted_mods.contains(&hash) {
-                                    untrusted_mods.push(UntrustedMod::new(
-                                        mod_version.mod_id.clone(),
-                                        version_string,
-                                        hash,
-                                    ));
-                                }
-
-                                background_thread_data.use_cpp_loader = true;
+                        let metadata =
+                            read_metadata(&File::open(&dst_path)?, &mod_version.file_name)?;
+                        if !metadata.cpp_loader_dlls.is_empty() {
+                            let mut hasher = Sha256::new();
+                            let mut file = File::open(&dst_path)?;
+                            let _ = io::copy(&mut file, &mut hasher)?;
+                            let hash = hasher.finalize()[..].to_vec();
+
+                            if !trusted_mods.contains(&hash) {
+                                untrusted_mods.push(UntrustedMod::new(
+                                    mod_version.mod_id.clone(),
+                                    version_string,
+                                    hash,
+                                ));
                             }
+
+                            background_thread_data.use_cpp_loader = true;
                         }
 
                         mods_to_integrate.push(
-- 
2.43.0


From f834aaccc45fcd2f14971775e579a56b81deab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:54 +0000
Subject: [PATCH 52/66] fix: an asset with legacy file version -4 is saved
 without the UE3 version it was loaded without

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index d9c949c..d4fb33c 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1013,7 +1013,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_u32::<BE>(UE4_ASSET_MAGIC)?;
         cursor.write_i32::<LE>(self.legacy_file_version)?;
 
-        if self.legacy_file_version != 4 {
+        if self.legacy_file_version != -4 {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => cursor.write_i32::<LE>(864)?,
-- 
2.43.0


From d66a941ff6f3352aab562ace173718afa9b1398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:54 +0000
Subject: [PATCH 53/66] fix: a damaged interface count of an old class export
 does not overflow

---
 unreal_asset/unreal_asset_exports/src/class_export.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index d4afdcc..719d7d1 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -102,10 +102,8 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         {
             interfaces_start = Some(asset.position());
             let num_interfaces = asset.read_i32::<LE>()?;
-            asset.seek(SeekFrom::Start(
-                interfaces_start.unwrap()
-                    + size_of::<i32>() as u64
-                    + num_interfaces as u64 * (size_of::<i32>() as u64 * 3),
+            asset.seek(SeekFrom::Current(
+                num_interfaces as i64 * (size_of::<i32>() as i64 * 3),
             ))?;
         }
 
-- 
2.43.0


From 8d3b985938d4e7c5e8d2812a47034ceddb0d09e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:54 +0000
Subject: [PATCH 54/66] fix: BoolProperty exports are read as UBoolProperty

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index cd420f7..77584c9 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -183,6 +183,7 @@ impl UProperty {
                 }
                 "InterfaceProperty" => UInterfaceProperty::new(asset)?.into(),
                 "MapProperty" => UMapProperty::new(asset)?.into(),
+                "BoolProperty" => UBoolProperty::new(asset)?.into(),
                 "ByteProperty" => UByteProperty::new(asset)?.into(),
                 "StructProperty" => UStructProperty::new(asset)?.into(),
                 "DoubleProperty" => UDoubleProperty::new(asset)?.into(),
-- 
2.43.0


From 5144312d32d80ac76c2b8fb3b83cc237aea24ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:40 +0000
Subject: [PATCH 55/66] fix: parsing mappings stores the version of the file

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index af9e4f6..cf47587 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -250,6 +250,8 @@ impl Usmap {
 
         let usmap_version = EUsmapVersion::try_from(reader.read_u8()?)?;
 
+        self.version = usmap_version;
+
         let mut has_versioning = usmap_version >= EUsmapVersion::PackageVersioning;
         if has_versioning {
             has_versioning = reader.read_bool()?;
-- 
2.43.0


From fb68e141fa0f638cb5898f3e7f556c02c45ff774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:10 +0000
Subject: [PATCH 56/66] fix: a damaged mappings file is answered with an error
 instead of a panic, hang or huge allocation

---
 .../unreal_asset_base/src/unversioned/mod.rs  | 63 ++++++++++++-------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index cf47587..6a506f6 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -101,7 +101,7 @@ impl UsmapSchema {
         let prop_count = reader.read_u16::<LE>()?;
         let serializable_property_count = reader.read_u16::<LE>()?;
 
-        let mut properties = IndexedMap::with_capacity(prop_count as usize);
+        let mut properties = IndexedMap::new();
 
         for _ in 0..serializable_property_count {
             let property = UsmapProperty::new(reader)?;
@@ -109,7 +109,10 @@ impl UsmapSchema {
             for j in 0..property.array_size {
                 let mut property = property.clone();
                 property.array_index = j as u16;
-                property.schema_index += j as u16;
+                property.schema_index = property
+                    .schema_index
+                    .checked_add(j as u16)
+                    .ok_or_else(|| Error::invalid_file("Invalid schema index".to_string()))?;
 
                 properties.insert(
                     (property.name.clone(), property.schema_index as u32),
@@ -180,7 +183,11 @@ impl Usmap {
     ) -> Vec<&UsmapProperty> {
         let mut properties = Vec::new();
 
-        while let Some(schema) = self.schemas.get_by_key(schema_name) {
+        // a valid chain of super types is never longer than the number of schemas
+        for _ in 0..self.schemas.len() {
+            let Some(schema) = self.schemas.get_by_key(schema_name) else {
+                break;
+            };
             properties.extend(schema.properties.values());
             schema_name = schema.super_type.as_str();
         }
@@ -198,7 +205,8 @@ impl Usmap {
         let mut optional_schema_name = ancestry.get_parent().map(|e| e.get_owned_content());
 
         let mut global_index = 0;
-        loop {
+        // a valid chain of super types is never longer than the number of schemas
+        for _ in 0..self.schemas.len() {
             let Some(schema_name) = optional_schema_name else {
                 break;
             };
@@ -269,8 +277,15 @@ impl Usmap {
         let compressed_size = reader.read_u32::<LE>()?;
         let decompressed_size = reader.read_u32::<LE>()?;
 
-        let mut compressed_data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut compressed_data)?;
+        // sizes come from the file, only allocate memory for bytes that exist
+        let mut compressed_data = Vec::new();
+        reader
+            .by_ref()
+            .take(compressed_size as u64)
+            .read_to_end(&mut compressed_data)?;
+        if compressed_data.len() != compressed_size as usize {
+            return Err(Error::invalid_file("Unexpected end of file".to_string()));
+        }
 
         let data = match self.compression_method {
             EUsmapCompressionMethod::None => {
@@ -283,20 +298,18 @@ impl Usmap {
                 compressed_data
             }
             EUsmapCompressionMethod::Brotli => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
-                brotli::BrotliDecompress(
-                    &mut Cursor::new(compressed_data),
-                    &mut decompressed_data,
-                )?;
-                decompressed_data.into_inner()
+                let mut decompressed_data = Vec::new();
+                brotli::Decompressor::new(Cursor::new(compressed_data), 4096)
+                    .take(decompressed_size as u64)
+                    .read_to_end(&mut decompressed_data)?;
+                decompressed_data
             }
             EUsmapCompressionMethod::ZStandard => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
-                zstd::stream::copy_decode(
-                    &mut Cursor::new(compressed_data),
-                    &mut decompressed_data,
-                )?;
-                decompressed_data.into_inner()
+                let mut decompressed_data = Vec::new();
+                zstd::stream::Decoder::new(Cursor::new(compressed_data))?
+                    .take(decompressed_size as u64)
+                    .read_to_end(&mut decompressed_data)?;
+                decompressed_data
             }
             EUsmapCompressionMethod::Oodle => {
                 #[cfg(not(feature = "oodle"))]
@@ -335,13 +348,16 @@ impl Usmap {
 
         self.name_map = reader.read_array(|reader| {
             let name_length = reader.read_u8()?;
-            let mut buf = vec![0u8; name_length as usize - 1];
+            let name_length = name_length
+                .checked_sub(1)
+                .ok_or_else(|| Error::invalid_file("Invalid name length".to_string()))?;
+            let mut buf = vec![0u8; name_length as usize];
             reader.read_exact(&mut buf)?;
             Ok(String::from_utf8(buf)?)
         })?;
 
         let enum_len = reader.read_u32::<LE>()?;
-        self.enum_map = IndexedMap::with_capacity(enum_len as usize);
+        self.enum_map = IndexedMap::new();
 
         let mut reader = UsmapReader::new(&mut reader, &self.name_map, &self.custom_versions);
 
@@ -359,7 +375,7 @@ impl Usmap {
         }
 
         let schemas_len = reader.read_u32::<LE>()?;
-        self.schemas = IndexedMap::with_capacity(schemas_len as usize);
+        self.schemas = IndexedMap::new();
 
         for _ in 0..schemas_len {
             let schema = UsmapSchema::read(&mut reader)?;
@@ -387,7 +403,10 @@ impl Usmap {
                         true => reader.read_u16::<LE>()?,
                         false => reader.read_u8()? as u16,
                     };
-                    schema.module_path = Some(module_paths[index as usize].clone());
+                    let module_path = module_paths.get(index as usize).cloned();
+                    schema.module_path = Some(module_path.ok_or_else(|| {
+                        Error::invalid_file("Module path index out of range".to_string())
+                    })?);
                 }
             }
         }
-- 
2.43.0


From bbfc68ce3fbadee5b5ecc7ffe6a0a828ecbf5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:30 +0000
Subject: [PATCH 57/66] fix: deeply nested content of a damaged file is an
 error instead of a stack overflow

---
 unreal_asset/unreal_asset_base/src/lib.rs     |  1 +
 unreal_asset/unreal_asset_base/src/nesting.rs | 38 +++++++++++++++++++
 .../src/unversioned/properties/mod.rs         |  2 +
 .../src/properties/fproperty.rs               |  2 +
 unreal_asset/unreal_asset_kismet/src/lib.rs   |  2 +
 .../unreal_asset_properties/src/lib.rs        |  2 +
 6 files changed, 47 insertions(+)
 create mode 100644 unreal_asset/unreal_asset_base/src/nesting.rs

diff --git a/unreal_asset/unreal_asset_base/src/lib.rs b/unreal_asset/unreal_asset_base/src/lib.rs
index 03eb6b3..cd86423 100644
--- a/unreal_asset/unreal_asset_base/src/lib.rs
+++ b/unreal_asset/unreal_asset_base/src/lib.rs
@@ -14,6 +14,7 @@ pub use error::Error;
 pub mod flags;
 pub mod import;
 pub use import::Import;
+pub mod nesting;
 pub mod object_version;
 pub mod reader;
 pub mod types;
diff --git a/unreal_asset/unreal_asset_base/src/nesting.rs b/unreal_asset/unreal_asset_base/src/nesting.rs
new file mode 100644
index 0000000..97d3696
--- /dev/null
+++ b/unreal_asset/unreal_asset_base/src/nesting.rs
@@ -0,0 +1,38 @@
+//! Limit of how deeply content of a file is nested
+
+use std::cell::Cell;
+
+use crate::Error;
+
+/// Content is read recursively; content that is nested deeper than this is rejected,
+/// so a damaged file can't exhaust the stack
+pub const MAX_NESTING: u32 = 64;
+
+thread_local! {
+    static NESTING: Cell<u32> = const { Cell::new(0) };
+}
+
+/// Has to be held while content that can contain itself is being read
+#[must_use]
+pub struct Nesting(());
+
+impl Nesting {
+    /// Enter a level of nesting
+    pub fn enter() -> Result<Self, Error> {
+        NESTING.with(|nesting| {
+            if nesting.get() >= MAX_NESTING {
+                return Err(Error::invalid_file(
+                    "Content is nested too deeply".to_string(),
+                ));
+            }
+            nesting.set(nesting.get() + 1);
+            Ok(Nesting(()))
+        })
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|nesting| nesting.set(nesting.get() - 1));
+    }
+}
diff --git a/unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs
index 9b077e0..88e97ac 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs
@@ -7,6 +7,7 @@ use byteorder::{ReadBytesExt, LE};
 use enum_dispatch::enum_dispatch;
 use num_enum::{IntoPrimitive, TryFromPrimitive};
 
+use crate::nesting::Nesting;
 use crate::reader::{ArchiveReader, ArchiveWriter};
 use crate::types::{PackageIndex};
 use crate::unversioned::{usmap_reader::UsmapReader, usmap_writer::UsmapWriter};
@@ -162,6 +163,7 @@ impl UsmapPropertyData {
     pub fn new<R: ArchiveReader<PackageIndex>>(
         asset: &mut UsmapReader<'_, '_, R>,
     ) -> Result<Self, Error> {
+        let _nesting = Nesting::enter()?;
         let prop_type: EPropertyType = EPropertyType::try_from(asset.read_u8()?)?;
 
         let res: UsmapPropertyData = match prop_type {
diff --git a/unreal_asset/unreal_asset_exports/src/properties/fproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/fproperty.rs
index cd5ae03..15ba8da 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/fproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/fproperty.rs
@@ -9,6 +9,7 @@ use enum_dispatch::enum_dispatch;
 use unreal_asset_base::{
     enums::{EArrayDim, ELifetimeCondition},
     flags::{EObjectFlags, EPropertyFlags},
+    nesting::Nesting,
     reader::{ArchiveReader, ArchiveWriter},
     types::{fname::ToSerializedName, FName, PackageIndex, PackageIndexTrait},
     Error, FNameContainer,
@@ -191,6 +192,7 @@ impl FProperty {
     pub fn new<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
     ) -> Result<Self, Error> {
+        let _nesting = Nesting::enter()?;
         let serialized_type = asset.read_fname()?;
         serialized_type.get_content(|ty| {
             Ok::<FProperty, Error>(match ty {
diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 594a39c..7e33f6e 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -17,6 +17,7 @@ use unreal_asset_base::FNameContainer;
 use unreal_asset_base::types::PackageIndexTrait;
 use unreal_asset_base::{
     error::KismetError,
+    nesting::Nesting,
     object_version::{ObjectVersion, ObjectVersionUE5},
     reader::{ArchiveReader, ArchiveWriter},
     types::{
@@ -1062,6 +1063,7 @@ impl KismetExpression {
     pub fn new<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
     ) -> Result<Self, Error> {
+        let _nesting = Nesting::enter()?;
         let token: EExprToken = asset.read_u8()?.try_into()?;
         let expr: Result<Self, Error> = match token {
             EExprToken::ExLocalVariable => Ok(ExLocalVariable::new(asset)?.into()),
diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 8025023..3813095 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -19,6 +19,7 @@ pub use unreal_asset_base::unversioned::Ancestry;
 pub use unreal_asset_base::Guid;
 
 use unreal_asset_base::error::{Error, PropertyError};
+use unreal_asset_base::nesting::Nesting;
 use unreal_asset_base::reader::{ArchiveReader, ArchiveWriter};
 use unreal_asset_base::types::fname::ToSerializedName;
 use unreal_asset_base::unversioned::header::UnversionedHeaderFragment;
@@ -639,6 +640,7 @@ impl Property {
             return Ok(EmptyProperty::new(type_name.clone(), name, ancestry).into());
         }
 
+        let _nesting = Nesting::enter()?;
         type_name.get_content(|ty| {
             Ok::<Property, Error>(match ty {
                 "BoolProperty" => BoolProperty::new(
-- 
2.43.0


From f9e69c65ab32d4049f59662bda1d9e957c5c3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 58/66] fix: the construction script of a persistent actor is
 looked up in the imports of the actor

---
 .../src/handlers/ue4_23/persistent_actors.rs                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 357daf8..1c52cec 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -160,7 +160,7 @@ pub fn handle_persistent_actors(
                 let export = &actor_asset.asset_data.exports[i];
                 if let Some(normal_export) = export.get_normal_export() {
                     if normal_export.base_export.class_index.is_import() {
-                        let import = asset
+                        let import = actor_asset
                             .get_import(normal_export.base_export.class_index)
                             .ok_or_else(|| io::Error::new(ErrorKind::Other, "Import not found"))?;
                         if import.object_name == "SimpleConstructionScript" {
@@ -208,7 +208,7 @@ pub fn handle_persistent_actors(
                         .ok_or_else(|| io::Error::new(ErrorKind::Other, "Invalid export"))?;
                     let is_scs_node = match known_category.base_export.class_index.is_import() {
                         true => {
-                            let import = asset
+                            let import = actor_asset
                                 .get_import(known_category.base_export.class_index)
                                 .ok_or_else(|| {
                                 io::Error::new(ErrorKind::Other, "Import not found")
-- 
2.43.0


From 6b9a7b9d185908965e1581edcf59977d22c6e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 59/66] fix: the component classes of a persistent actor are
 imported with the names and package of the map

---
 .../src/handlers/ue4_23/persistent_actors.rs  | 50 +++++++++++--------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 1c52cec..43ec7fe 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -31,6 +31,32 @@ struct ScsNode {
     original_category: PackageIndex,
 }
 
+/// Find an import of another asset in this asset or add it
+fn import_into<C: io::Read + io::Seek>(
+    asset: &mut Asset<C>,
+    import: &Import,
+    outer_index: PackageIndex,
+) -> PackageIndex {
+    if let Some(index) = asset.find_import(
+        &import.class_package,
+        &import.class_name,
+        outer_index,
+        &import.object_name,
+    ) {
+        return PackageIndex::new(index);
+    }
+
+    // the names belong to the name map of the other asset
+    let import = Import {
+        class_package: asset.add_fname(&import.class_package.get_owned_content()),
+        class_name: asset.add_fname(&import.class_name.get_owned_content()),
+        outer_index,
+        object_name: asset.add_fname(&import.object_name.get_owned_content()),
+        optional: import.optional,
+    };
+    asset.add_import(import)
+}
+
 #[allow(clippy::ptr_arg)]
 pub fn handle_persistent_actors(
     game_name: &'static str,
@@ -291,27 +317,9 @@ pub fn handle_persistent_actors(
 
                     if let (Some(first_import), Some(second_import)) = (first_import, second_import)
                     {
-                        if asset
-                            .find_import(
-                                &second_import.class_package,
-                                &second_import.class_name,
-                                second_import.outer_index,
-                                &second_import.object_name,
-                            )
-                            .is_none()
-                        {
-                            asset.add_import(second_import);
-                        }
-
-                        let type_link = match asset.find_import(
-                            &first_import.class_package,
-                            &first_import.class_name,
-                            first_import.outer_index,
-                            &first_import.object_name,
-                        ) {
-                            Some(e) => PackageIndex::new(e),
-                            None => asset.add_import(first_import),
-                        };
+                        let outer_index =
+                            import_into(&mut asset, &second_import, second_import.outer_index);
+                        let type_link = import_into(&mut asset, &first_import, outer_index);
 
                         new_scs.type_link = type_link;
                     }
-- 
2.43.0


From f518ed3fa60843752225320d8f7110962f3037a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 60/66] fix: an invalid persistent actor is an error instead of
 a panic

---
 .../src/handlers/ue4_23/persistent_actors.rs      | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 43ec7fe..df56730 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -130,7 +130,12 @@ pub fn handle_persistent_actors(
             let (component_path_raw, component) = match component.contains('.') {
                 true => {
                     let split: Vec<&str> = component.split('.').collect();
-                    (split[0].to_string(), &split[1][..split[1].len() - 2])
+                    let class = split[1]
+                        .get(..split[1].len().saturating_sub(2))
+                        .ok_or_else(|| {
+                            io::Error::new(ErrorKind::Other, "Invalid persistent actors")
+                        })?;
+                    (split[0].to_string(), class)
                 }
                 false => (component_path_raw.to_string(), component),
             };
@@ -228,9 +233,11 @@ pub fn handle_persistent_actors(
 
                 let mut known_parents = HashMap::new();
                 for known_node_category in known_node_categories {
-                    let known_category: &NormalExport<_> = actor_asset.asset_data.exports
-                        [known_node_category as usize - 1]
-                        .get_normal_export()
+                    let known_category: &NormalExport<_> = actor_asset
+                        .asset_data
+                        .exports
+                        .get(known_node_category as usize - 1)
+                        .and_then(|e| e.get_normal_export())
                         .ok_or_else(|| io::Error::new(ErrorKind::Other, "Invalid export"))?;
                     let is_scs_node = match known_category.base_export.class_index.is_import() {
                         true => {
-- 
2.43.0


From bb5f755c5413562f84c691570060a37f083fbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 61/66] fix: a map which several mods name gets each persistent
 actor once

---
 unreal_mod_integrator/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index 1475963..a110a17 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fs::{self, File, OpenOptions};
 use std::io::{BufReader, BufWriter, Cursor, Write};
 use std::path::{Path, PathBuf};
@@ -498,13 +498,16 @@ pub fn integrate_mods<
 
         let empty_vec: Vec<Value> = Vec::new();
 
-        let persistent_actor_maps: Vec<&str> = optional_mods_data
+        let mut persistent_actor_maps: Vec<&str> = optional_mods_data
             .get("persistent_actor_maps")
             .unwrap_or(&empty_vec)
             .iter()
             .filter_map(|e| e.as_array())
             .flat_map(|e| e.iter().filter_map(|e| e.as_str()))
             .collect();
+        // several mods can name the same map, which still gets each actor once
+        let mut seen_maps = HashSet::new();
+        persistent_actor_maps.retain(|e| seen_maps.insert(*e));
 
         let persistent_actors = optional_mods_data
             .get("persistent_actors")
-- 
2.43.0


From 2730b16e2a8c9e62088ce1b2ecaf80839737f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:59 +0000
Subject: [PATCH 62/66] fix: a name changed in place is found under its new
 content

NameMap::get_name_reference_mut took the old content out of the lookup but
nothing put the new one in, so searching the renamed name failed and adding
it again put it into the saved name table twice.
---
 .../unreal_asset_base/src/containers/name_map.rs  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index e540f19..b5de625 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -16,6 +16,8 @@ pub struct NameMap {
     name_map_lookup: IndexedMap<u64, i32>,
     /// Name map index list
     name_map_index_list: Vec<String>,
+    /// Indices of names that were borrowed mutably, the lookup doesn't know their content
+    renamed: Vec<i32>,
     /// A reference to self
     self_ref: SharedResourceWeakRef<NameMap>,
 }
@@ -26,6 +28,7 @@ impl NameMap {
         SharedResource::new_cyclic(|me| NameMap {
             name_map_lookup: IndexedMap::new(),
             name_map_index_list: Vec::new(),
+            renamed: Vec::new(),
             self_ref: me.clone(),
         })
     }
@@ -47,7 +50,14 @@ impl NameMap {
         let mut s = DefaultHasher::new();
         name.hash(&mut s);
 
-        self.name_map_lookup.get_by_key(&s.finish()).copied()
+        self.name_map_lookup
+            .get_by_key(&s.finish())
+            .or_else(|| {
+                self.renamed
+                    .iter()
+                    .find(|e| self.name_map_index_list[**e as usize] == name)
+            })
+            .copied()
     }
 
     /// Add an FName reference
@@ -101,6 +111,9 @@ impl NameMap {
         if self.name_map_lookup.get_by_key(&hash) == Some(&index) {
             self.name_map_lookup.remove_by_key(&hash);
         }
+        if !self.renamed.contains(&index) {
+            self.renamed.push(index);
+        }
 
         &mut self.name_map_index_list[index as usize]
     }
-- 
2.43.0


From f40023d7849bfa35ab626cdb1efe6f861b610514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:59 +0000
Subject: [PATCH 63/66] fix: Box2D and Plane structs have their own layout

Both are immutable structs of the engine and have a reader and a writer here,
but were missing in the list of custom serialized structs, so exports that
contain them fell back to raw data.
---
 unreal_asset/unreal_asset_properties/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 3813095..bcd86a3 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -246,7 +246,7 @@ macro_rules! impl_property_data_trait {
     };
 }
 
-const CUSTOM_SERIALIZATION: [&str; 57] = [
+const CUSTOM_SERIALIZATION: [&str; 59] = [
     "SkeletalMeshSamplingLODBuiltData",
     "SkeletalMeshAreaWeightedTriangleSampler",
     "SmartName",
@@ -276,6 +276,8 @@ const CUSTOM_SERIALIZATION: [&str; 57] = [
     "Rotator",
     "Vector2D",
     "Box",
+    "Box2D",
+    "Plane",
     "PerPlatformFloat",
     "Vector4",
     "Vector",
-- 
2.43.0


From 84c99aa68b941fd02fcfaf7294737d83963ee6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:29 +0000
Subject: [PATCH 64/66] fix: a string table may contain empty strings

The engine stores an empty string without a terminator, which made the whole
string table fall back to raw data.
---
 .../unreal_asset_exports/src/string_table_export.rs    | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/string_table_export.rs b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
index 8bb2bcd..1f6443d 100644
--- a/unreal_asset/unreal_asset_exports/src/string_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
@@ -20,8 +20,8 @@ pub struct StringTableExport<Index: PackageIndexTrait> {
     pub normal_export: NormalExport<Index>,
     /// String table namespace
     pub namespace: Option<String>,
-    /// String table
-    pub table: IndexedMap<String, String>,
+    /// String table, empty strings are stored as `None`
+    pub table: IndexedMap<String, Option<String>>,
 }
 
 implement_get!(StringTableExport);
@@ -44,9 +44,7 @@ impl<Index: PackageIndexTrait> StringTableExport<Index> {
                 asset
                     .read_fstring()?
                     .ok_or_else(|| Error::no_data("StringTable key is None".to_string()))?,
-                asset
-                    .read_fstring()?
-                    .ok_or_else(|| Error::no_data("StringTable value is None".to_string()))?,
+                asset.read_fstring()?,
             );
         }
 
@@ -67,7 +65,7 @@ impl<Index: PackageIndexTrait> ExportTrait<Index> for StringTableExport<Index> {
         asset.write_i32::<LE>(self.table.len() as i32)?;
         for (_, key, value) in &self.table {
             asset.write_fstring(Some(key))?;
-            asset.write_fstring(Some(value))?;
+            asset.write_fstring(value.as_deref())?;
         }
         Ok(())
     }
-- 
2.43.0


From 51314482e7a451eb587697981e1eb04f97f79055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 65/66] fix: a dependency is used in the version that was
 resolved for its dependents

---
 unreal_mod_manager/src/background_work.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 9f34932..f00bb49 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -26,7 +26,7 @@ use unreal_pak::PakReader;
 
 use crate::config;
 use crate::error::{ModLoaderError, ModLoaderWarning};
-use crate::game_mod::GameModVersion;
+use crate::game_mod::{GameModVersion, SelectedVersion};
 use crate::mod_config::load_config;
 use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
@@ -602,7 +602,7 @@ where
                                             metadata: Some(metadata),
                                         });
 
-                                        to_enable.push(mod_id.clone());
+                                        to_enable.push((mod_id.clone(), version.clone()));
                                         downloaded_mods.push(FileToProcess::new(mod_path, false));
                                     }
                                     Err(err) => warnings.push(err),
@@ -626,9 +626,16 @@ where
                     warnings.extend(process_warnings);
 
                     let mut data_guard = background_thread_data.data.lock();
-                    for to_enable in to_enable {
-                        if let Some(game_mod) = data_guard.game_mods.get_mut(&to_enable) {
+                    for (mod_id, version) in to_enable {
+                        if let Some(game_mod) = data_guard.game_mods.get_mut(&mod_id) {
                             game_mod.enabled = true;
+
+                            // the version that satisfies the dependents is the one to use
+                            if game_mod.versions.contains_key(&version)
+                                && game_mod.selected_version.clone().unwrap() != version
+                            {
+                                game_mod.selected_version = SelectedVersion::Specific(version);
+                            }
                         }
                     }
 
-- 
2.43.0


From b938e8b32b49fd001d7a23f682d87ca19d7c3488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:14 +0000
Subject: [PATCH 66/66] fix: baked mods passed to the integrator are integrated
 once

---
 unreal_mod_integrator/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index a110a17..8aa63f0 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -379,9 +379,18 @@ pub fn integrate_mods<
     );
 
     let baked_mods = integrator_config.get_baked_mods();
-    let core_mods = baked_mods.iter().filter(|e| e.is_core());
+    // baked mods that have been provided are integrated once
+    let missing_mods = || {
+        baked_mods.iter().filter(|e| {
+            !mods.iter().any(|provided_mod| {
+                matches!(provided_mod, IntegratorMod::Baked(_))
+                    && provided_mod.get_mod_id() == e.get_mod_id()
+            })
+        })
+    };
+    let core_mods = missing_mods().filter(|e| e.is_core());
 
-    let enabled_baked_mods = baked_mods.iter().filter(|e| !e.is_core()).filter(|e| {
+    let enabled_baked_mods = missing_mods().filter(|e| !e.is_core()).filter(|e| {
         mods.iter()
             .any(|provided_mod| provided_mod.get_mod_id() == e.get_mod_id())
     });
-- 
2.43.0

