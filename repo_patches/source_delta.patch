From 033fbfe5adb68b8ad79d98c50f90f5fcbc420e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 01/30] fix: compute exact chunk grid extents

u64_ceil_div(a, b) rounded (a + 1) / b up, giving one chunk too many whenever
b divides a + 1 (for example b = 1), and overflowed for a = u64::MAX.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1455ad4..a65ed50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,7 +338,7 @@ pub trait HierarchyWriter: HierarchyReader {
 }
 
 fn u64_ceil_div(a: u64, b: u64) -> u64 {
-    (a + 1) / b + (if a % b != 0 { 1 } else { 0 })
+    a / b + (if a % b != 0 { 1 } else { 0 })
 }
 
 /// Metadata for groups.
-- 
2.43.0


From 9ace733c313399feb5f4b101005a987296712da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 02/30] fix: do not overflow when computing chunk iteration
 bounds

Array sizes close to the integer maximum made coord_iter and
bounded_coord_iter panic; use the same exact rounding as the grid extent.
---
 src/ndarray.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 1a05c34..61de42a 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -14,6 +14,7 @@ use ndarray::{
 };
 
 use crate::{
+    u64_ceil_div,
     ArrayMetadata,
     ChunkCoord,
     CoordVec,
@@ -393,7 +394,7 @@ impl ArrayMetadata {
             .get_shape()
             .iter()
             .zip(self.get_chunk_shape().iter())
-            .map(|(&d, &s)| (d + u64::from(s) - 1) / u64::from(s))
+            .map(|(&d, &s)| u64_ceil_div(d, u64::from(s)))
             .collect::<GridCoord>();
 
         CoordIterator::new(&coord_ceil)
@@ -416,7 +417,7 @@ impl ArrayMetadata {
             .iter()
             .zip(&bbox.shape)
             .zip(self.chunk_grid.chunk_shape.iter().cloned().map(u64::from))
-            .map(|((&o, &s), cs)| (o + s + cs - 1) / cs)
+            .map(|((&o, &s), cs)| u64_ceil_div(o + s, cs))
             .collect();
 
         CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
-- 
2.43.0


From 4e0ffabbb07149f2df52a548bc7d27d108169a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/30] fix: iterate no chunks for empty boxes and keep
 size_hint exact

bounded_coord_iter yielded chunks (possibly outside the grid) for boxes that
do not intersect the array, and size_hint underflowed once the iterator was
exhausted and polled again.
---
 src/ndarray.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 61de42a..6d1a3b4 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -417,7 +417,11 @@ impl ArrayMetadata {
             .iter()
             .zip(&bbox.shape)
             .zip(self.chunk_grid.chunk_shape.iter().cloned().map(u64::from))
-            .map(|((&o, &s), cs)| u64_ceil_div(o + s, cs))
+            .map(|((&o, &s), cs)| match s {
+                // No chunk intersects an empty box.
+                0 => o / cs,
+                _ => u64_ceil_div(o + s, cs),
+            })
             .collect();
 
         CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
@@ -520,6 +524,9 @@ impl<T: Iterator<Item = Vec<u64>>> Iterator for CoordIterator<T> {
     type Item = Vec<u64>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.accumulator == self.total_coords {
+            return None;
+        }
         self.accumulator += 1;
         self.iter.next()
     }
-- 
2.43.0


From 0052c1f377cf8e2f607466f33a3fc853c004084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 04/30] fix: iterate the single chunk of zero-dimensional
 arrays

Their grid has one position, as get_num_chunks and size_hint say, but the
iterator never yielded it, so region reads and writes ignored the chunk.
---
 src/ndarray.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 6d1a3b4..b07b1b2 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -489,6 +489,7 @@ impl<T: ReflectedType> VecDataChunk<T> {
 /// ranges.
 struct CoordIterator<T: Iterator<Item = Vec<u64>>> {
     iter: T,
+    ndim: usize,
     accumulator: usize,
     total_coords: usize,
 }
@@ -497,6 +498,7 @@ impl CoordIterator<itertools::MultiProduct<std::ops::Range<u64>>> {
     fn new(ceil: &[u64]) -> Self {
         CoordIterator {
             iter: ceil.iter().map(|&c| 0..c).multi_cartesian_product(),
+            ndim: ceil.len(),
             accumulator: 0,
             total_coords: ceil.iter().product::<u64>() as usize,
         }
@@ -514,6 +516,7 @@ impl CoordIterator<itertools::MultiProduct<std::ops::Range<u64>>> {
                 .zip(ceil.iter())
                 .map(|(&f, &c)| f..c)
                 .multi_cartesian_product(),
+            ndim: floor.len(),
             accumulator: 0,
             total_coords,
         }
@@ -528,7 +531,12 @@ impl<T: Iterator<Item = Vec<u64>>> Iterator for CoordIterator<T> {
             return None;
         }
         self.accumulator += 1;
-        self.iter.next()
+        match self.ndim {
+            // The product of no ranges is one empty coordinate, but
+            // `multi_cartesian_product` yields nothing for it.
+            0 => Some(vec![]),
+            _ => self.iter.next(),
+        }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From ce820c60335fb0b3689d37bdc0dbb6fc2dceae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 05/30] fix: reject keys that leave the hierarchy and come back
 in

Only the final nesting depth was checked, so `../x` escaped the base path.
---
 src/store/filesystem.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index de08f82..6956a16 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -177,16 +177,16 @@ impl FilesystemHierarchy {
                 Component::ParentDir => nest -= 1,
                 Component::Normal(_) => nest += 1,
             };
-        }
 
-        if nest < 0 {
-            Err(Error::new(
-                ErrorKind::NotFound,
-                "Path name is outside this Zarr filesystem",
-            ))
-        } else {
-            Ok(self.base_path.join(unrooted_path))
+            if nest < 0 {
+                return Err(Error::new(
+                    ErrorKind::NotFound,
+                    "Path name is outside this Zarr filesystem",
+                ));
+            }
         }
+
+        Ok(self.base_path.join(unrooted_path))
     }
 }
 
-- 
2.43.0


From 89e3113e9e1259bfc205dd49c8a7c2f6ece7fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 06/30] fix: do not follow symbolic links when erasing a prefix

WalkDir follows a link given as its root, so removing a linked array erased
the files behind the link; other links were opened, failing if dangling.
---
 src/store/filesystem.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 6956a16..7c67a55 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -295,11 +295,16 @@ impl WriteableStore for FilesystemHierarchy {
         let path = self.get_path(key_prefix)?;
 
         if path.exists() {
-            for entry in WalkDir::new(&path).contents_first(true) {
+            let walk = WalkDir::new(&path)
+                .follow_root_links(false)
+                .contents_first(true);
+            for entry in walk {
                 let entry = entry?;
 
                 if entry.file_type().is_dir() {
                     fs::remove_dir(entry.path())?;
+                } else if entry.path_is_symlink() {
+                    fs::remove_file(entry.path())?;
                 } else {
                     let file = File::open(entry.path())?;
                     file.lock_exclusive()?;
-- 
2.43.0


From 90d99a839ee8d1a9cb0d46ad5bd5490de585ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 07/30] fix: lock the entry point document while reading it

It is written under an exclusive lock, but was read without a shared one.
---
 src/store/filesystem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 7c67a55..c3ea905 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -49,7 +49,9 @@ impl Hierarchy for FilesystemHierarchy {
 impl FilesystemHierarchy {
     fn read_entry_point_metadata(base_path: &PathBuf) -> Result<EntryPointMetadata> {
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
-        let reader = BufReader::new(File::open(entry_point_path)?);
+        let file = File::open(entry_point_path)?;
+        file.lock_shared()?;
+        let reader = BufReader::new(file);
         let metadata: EntryPointMetadata = serde_json::from_reader(reader)?;
         if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {
             // TODO: returning an io::Error wrapped custom error, rather than other
-- 
2.43.0


From a2446ce1ac83b40f75a0c1c4a7d93f5a280d265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 08/30] fix: write the entry point document completely or fail

Content of a document created since the existence check was overwritten in
place, and errors of the final buffered write were dropped.
---
 src/store/filesystem.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index c3ea905..59eac75 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -10,6 +10,7 @@ use std::io::{
     Error,
     ErrorKind,
     Result,
+    Write,
 };
 use std::path::PathBuf;
 
@@ -98,9 +99,12 @@ impl FilesystemHierarchy {
                 .create(true)
                 .open(entry_point_path)?;
             file.lock_exclusive()?;
+            // Another process may have created the entry point since the check.
+            file.set_len(0)?;
 
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, &metadata)?;
+            let mut writer = BufWriter::new(file);
+            serde_json::to_writer(&mut writer, &metadata)?;
+            writer.flush()?;
             metadata
         };
 
-- 
2.43.0


From ec83a114d10b5b20ac9fd1c014980420ee66e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 09/30] fix: report errors of the final write of metadata
 documents

The documents were handed to a BufWriter that was dropped without being
flushed, so a failing write (such as a full disk) was reported as success.
---
 src/storage.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 887f63b..b843d5b 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -390,8 +390,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             }
         }
         if merged != existing {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &merged)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &merged)?;
+                writer.flush()
             })?;
         }
         Ok(())
@@ -413,8 +414,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         } else if self.exists(metadata_key.to_str().expect("TODO"))? {
             Ok(())
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &GroupMetadata::default())?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &GroupMetadata::default())?;
+                writer.flush()
             })
         }
     }
@@ -435,8 +437,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
                 "Node already exists at array path",
             ))
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, array_meta)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, array_meta)?;
+                writer.flush()
             })
         }
     }
-- 
2.43.0


From 811b53dee7bc99670dc242aaadf42dd4a9461fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 10/30] fix: keep the stored chunk when a chunk write is
 refused

The value was truncated before the chunk's type and size were checked. Errors
of the compressor's and the writer's final writes, which happen when they are
dropped, were also lost (or, for LZ4, turned into a panic).
---
 src/storage.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index b843d5b..8a1558e 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -465,10 +465,17 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO convert assert
         // assert!(array_meta.in_bounds(chunk.get_grid_position()));
         let chunk_key = get_chunk_key(path_name, array_meta, chunk.get_grid_position());
-        self.set(&chunk_key, |writer| {
-            <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkWriter<T, _, _>>::write_chunk(
-                writer, array_meta, chunk,
-            )
+        // Encode before the store is touched, so that a chunk that cannot be
+        // encoded does not destroy the stored one.
+        let mut encoded = Vec::new();
+        <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkWriter<T, _, _>>::write_chunk(
+            &mut encoded,
+            array_meta,
+            chunk,
+        )?;
+        self.set(&chunk_key, |mut writer| {
+            writer.write_all(&encoded)?;
+            writer.flush()
         })
     }
 
-- 
2.43.0


From 7fb8f8dc34e2a445093b7ab0c241f454a4fc1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 11/30] fix: serialize raw data types without trailing NUL
 characters

The whole buffer was used as the name, so raw types could not be read back.
---
 src/data_type.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 54dce7a..100454a 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -1,5 +1,3 @@
-use std::io::Write;
-
 use half::f16;
 use serde::{
     Deserialize,
@@ -156,8 +154,7 @@ impl Serialize for DataType {
                 std::str::from_utf8(&buf[..3]).unwrap()
             }
             Raw { size } => {
-                write!(&mut buf[..], "r{}", size).expect("TODO");
-                std::str::from_utf8(&buf[..]).unwrap()
+                return serializer.collect_str(&format_args!("r{}", size));
             }
         };
         serializer.serialize_str(s)
-- 
2.43.0


From e30034b5f4da34d8afc9ac6d57cc6a6aee6a9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 12/30] fix: reject malformed data type names instead of
 panicking

---
 src/data_type.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 100454a..3556619 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -202,28 +202,28 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
                     ));
                 }
             }
-            dtype if dtype.len() == 3 => {
+            dtype if dtype.len() == 3 && dtype.is_ascii() => {
+                let invalid =
+                    || serde::de::Error::invalid_value(serde::de::Unexpected::Str(value), &self);
                 let mut chars = dtype.chars();
-                let endian = Endian::deserial_char(chars.next().unwrap()).expect("TODO");
+                let endian = Endian::deserial_char(chars.next().unwrap()).ok_or_else(invalid)?;
                 match chars.next().unwrap() {
                     'i' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size =
+                            IntSize::deserial_char(chars.next().unwrap()).ok_or_else(invalid)?;
                         DataType::Int { size, endian }
                     }
                     'u' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size =
+                            IntSize::deserial_char(chars.next().unwrap()).ok_or_else(invalid)?;
                         DataType::UInt { size, endian }
                     }
                     'f' => {
-                        let size = FloatSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size =
+                            FloatSize::deserial_char(chars.next().unwrap()).ok_or_else(invalid)?;
                         DataType::Float { size, endian }
                     }
-                    _ => {
-                        return Err(serde::de::Error::invalid_value(
-                            serde::de::Unexpected::Str(value),
-                            &self,
-                        ))
-                    }
+                    _ => return Err(invalid()),
                 }
             }
             _ => {
-- 
2.43.0


From 79f327b57f9a96e5212390477482eef6189a904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 13/30] fix: report extended data types without fallback as an
 error

Reading or writing a chunk of such an array panicked with 'not yet implemented'.
---
 src/data_type.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 3556619..e58800e 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -301,7 +301,9 @@ impl ExtensibleDataType {
             Extended {
                 fallback: Some(d), ..
             } => Ok(*d),
-            _ => todo!(),
+            Extended { type_string, .. } => {
+                Err(MetadataError::UnexpectedType(type_string.as_str().into()))
+            }
         }
     }
 }
-- 
2.43.0


From a2f1cd8e86917e6a02db0de09a4fb6585d1a2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 14/30] fix: list usable keys and report listing errors

Listing a prefix without trailing slash glued the prefix and the file names
together, so list and list_prefix failed on any nested key. Entries that could
not be inspected were skipped and names that are not unicode panicked.
---
 src/store/filesystem.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 59eac75..ee1ff84 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -234,20 +234,21 @@ impl ListableStore for FilesystemHierarchy {
         let mut prefixes = vec![];
         let target = self.get_path(prefix)?;
 
-        // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
-        let entries = fs::read_dir(target)?.filter_map(|e| {
-            e.and_then(|file| {
-                fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
-                    (
-                        format!("{}{}", prefix, file.file_name().to_str().unwrap()),
-                        t,
-                    )
-                })
-            })
-            .ok()
-        });
+        let separator = if prefix.is_empty() || prefix.ends_with('/') {
+            ""
+        } else {
+            "/"
+        };
+
+        for entry in fs::read_dir(target)? {
+            let entry = entry?;
+            let t = fs::metadata(entry.path())?.file_type();
+            let name = entry
+                .file_name()
+                .into_string()
+                .map_err(|_| Error::new(ErrorKind::InvalidData, "TODO: non-unicode path"))?;
+            let key = format!("{}{}{}", prefix, separator, name);
 
-        for (key, t) in entries {
             if t.is_file() {
                 keys.push(key);
             } else {
-- 
2.43.0


From 4baf6c52bf93903c300d740f658946a896dfbc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 15/30] fix: list the nodes of a group by name

Suffixes were removed twice, which panicked as soon as the group contained an
array or explicit group, and names had a leading slash below the root.
---
 src/storage.rs | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 8a1558e..aabf09b 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -308,35 +308,24 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
 
 impl<S: ListableStore + Hierarchy> HierarchyLister for S {
     fn list_nodes(&self, prefix_path: &str) -> Result<Vec<String>, Error> {
-        // TODO: Inelegant.
-
-        let key_prefix = format!(
-            "{}/{}",
-            crate::META_ROOT_PATH,
-            crate::canonicalize_path(prefix_path)
-        );
+        let canon_path = crate::canonicalize_path(prefix_path);
+        let key_prefix = if canon_path.is_empty() {
+            format!("{}/", crate::META_ROOT_PATH)
+        } else {
+            format!("{}/{}/", crate::META_ROOT_PATH, canon_path)
+        };
         let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
 
-        // Find array and group metadata keys.
-        keys.retain(|k| k.ends_with(&self.get_entry_point_metadata().metadata_key_suffix));
-        keys.iter_mut().for_each(|k| {
-            k.truncate(k.len() - self.get_entry_point_metadata().metadata_key_suffix.len())
-        });
-        keys.retain(|k| {
-            k.ends_with(&crate::ARRAY_METADATA_KEY_EXT)
-                || k.ends_with(&crate::GROUP_METADATA_KEY_EXT)
-        });
-        assert_eq!(
-            crate::ARRAY_METADATA_KEY_EXT.len(),
-            crate::GROUP_METADATA_KEY_EXT.len()
-        );
-
-        // Remove metadata extensions from keys to partially convert to node paths.
-        let suffix_len = self.get_entry_point_metadata().metadata_key_suffix.len()
-            + crate::ARRAY_METADATA_KEY_EXT.len()
-            + 1;
+        // Find array and group metadata keys, and remove metadata extensions
+        // from them to partially convert to node paths.
+        let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
+        let suffix = suffix.strip_prefix('.').unwrap_or(suffix);
+        let array_suffix = format!(".{}.{}", crate::ARRAY_METADATA_KEY_EXT, suffix);
+        let group_suffix = format!(".{}.{}", crate::GROUP_METADATA_KEY_EXT, suffix);
+        keys.retain(|k| k.ends_with(&array_suffix) || k.ends_with(&group_suffix));
+        assert_eq!(array_suffix.len(), group_suffix.len());
         keys.iter_mut()
-            .for_each(|k| k.truncate(k.len() - suffix_len));
+            .for_each(|k| k.truncate(k.len() - array_suffix.len()));
 
         // Add potential implicit groups.
         prefixes
-- 
2.43.0


From c8a191f7e214a60caab520429f0318e3cb119994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 16/30] fix: remove the metadata of nodes below a removed node

Child nodes of a removed group kept existing, with their chunks gone.
---
 src/storage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index aabf09b..56dcff5 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -4,6 +4,7 @@ use std::io::{
     Read,
     Write,
 };
+use std::path::PathBuf;
 
 use semver::VersionReq;
 use serde_json::Value;
@@ -437,10 +438,11 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO: needless allocs
         let metadata_key = self.group_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        let mut metadata_key = self.array_metadata_key(path_name);
+        let metadata_key = self.array_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        metadata_key.set_extension("");
-        metadata_key.set_extension("");
+        let metadata_prefix =
+            PathBuf::from(crate::META_ROOT_PATH).join(canonicalize_path(path_name));
+        self.erase_prefix(metadata_prefix.to_str().expect("TODO"))?;
         self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
         Ok(())
     }
-- 
2.43.0


From a9285a0816732f4dfe4539ac6d16bc39ebbbdd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 17/30] fix: parse the name of the LZ4 codec with the lz_pure
 feature

---
 src/compression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression/mod.rs b/src/compression/mod.rs
index a30945c..9d505ed 100644
--- a/src/compression/mod.rs
+++ b/src/compression/mod.rs
@@ -147,7 +147,7 @@ impl std::str::FromStr for CompressionType {
             #[cfg(feature = "xz")]
             "xz" => Ok(Self::new::<xz::XzCompression>()),
 
-            #[cfg(feature = "lz")]
+            #[cfg(any(feature = "lz", feature = "lz_pure"))]
             "lz4" => Ok(Self::new::<lz::Lz4Compression>()),
 
             _ => Err(std::io::ErrorKind::InvalidInput.into()),
-- 
2.43.0


From f78bc9840a77a794b8fe71c7bdb5626fcac62bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 18/30] fix: use default bzip2 and xz parameters when
 configured ones are invalid

The codec libraries panic on block sizes and presets out of range, which come
from stored metadata.
---
 src/compression/bzip.rs | 16 ++++++++++++----
 src/compression/xz.rs   | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/compression/bzip.rs b/src/compression/bzip.rs
index f2741d4..4b3fbc9 100644
--- a/src/compression/bzip.rs
+++ b/src/compression/bzip.rs
@@ -20,6 +20,17 @@ pub struct Bzip2Compression {
     block_size: u8,
 }
 
+impl Bzip2Compression {
+    /// Use the default block size if the configured one is not in [1, 9].
+    fn get_effective_block_size(&self) -> BzCompression {
+        if self.block_size < 1 || self.block_size > 9 {
+            BzCompression::new(u32::from(default_bzip_block_size()))
+        } else {
+            BzCompression::new(u32::from(self.block_size))
+        }
+    }
+}
+
 fn default_bzip_block_size() -> u8 {
     9
 }
@@ -38,10 +49,7 @@ impl Compression for Bzip2Compression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        Box::new(BzEncoder::new(
-            w,
-            BzCompression::new(u32::from(self.block_size)),
-        ))
+        Box::new(BzEncoder::new(w, self.get_effective_block_size()))
     }
 }
 
diff --git a/src/compression/xz.rs b/src/compression/xz.rs
index d2e13b5..8c022e5 100644
--- a/src/compression/xz.rs
+++ b/src/compression/xz.rs
@@ -19,6 +19,17 @@ pub struct XzCompression {
     preset: i32,
 }
 
+impl XzCompression {
+    /// Use the default preset if the configured one is not in [0, 9].
+    fn get_effective_preset(&self) -> u32 {
+        if self.preset < 0 || self.preset > 9 {
+            default_xz_preset() as u32
+        } else {
+            self.preset as u32
+        }
+    }
+}
+
 fn default_xz_preset() -> i32 {
     6
 }
@@ -37,8 +48,7 @@ impl Compression for XzCompression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        // TODO: check that preset is non-negative.s
-        Box::new(XzEncoder::new(w, self.preset as u32))
+        Box::new(XzEncoder::new(w, self.get_effective_preset()))
     }
 }
 
-- 
2.43.0


From 5c1fb6c0e81837ea7f037c5e1807bfd6985d2742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 19/30] fix: write a single LZ4 frame with the lz_pure feature

Every write made a frame of its own, of which only the first is decoded
again, and no write at all made a stream without any frame, which does
not decode.
---
 src/compression/lz_pure.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index e896e0c..021c0a3 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -15,16 +15,18 @@ use serde::{
 
 use super::Compression;
 
+/// An LZ4 frame can only be compressed from its complete contents, so collect
+/// these and write the frame on drop.
 struct Wrapper<W: Write> {
     writer: W,
     settings: CompressionSettings<'static>,
+    contents: Vec<u8>,
 }
 
 impl<W: Write> Write for Wrapper<W> {
     fn write(&mut self, buffer: &[u8]) -> Result<usize> {
-        let len = buffer.len();
-        self.settings.compress(buffer, &mut self.writer)?;
-        Ok(len)
+        self.contents.extend_from_slice(buffer);
+        Ok(buffer.len())
     }
 
     fn flush(&mut self) -> Result<()> {
@@ -32,6 +34,14 @@ impl<W: Write> Write for Wrapper<W> {
     }
 }
 
+impl<W: Write> Drop for Wrapper<W> {
+    fn drop(&mut self) {
+        self.settings
+            .compress(self.contents.as_slice(), &mut self.writer)
+            .unwrap();
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
 #[serde(rename_all = "camelCase")]
 pub struct Lz4Compression {
@@ -65,7 +75,11 @@ impl Compression for Lz4Compression {
         settings
             .block_size(self.block_size as usize)
             .independent_blocks(true);
-        Box::new(Wrapper { writer, settings })
+        Box::new(Wrapper {
+            writer,
+            settings,
+            contents: Vec::new(),
+        })
     }
 }
 
-- 
2.43.0


From c7b0eb4d6849007b3930cbac9771312e1ab4a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 20/30] fix: report malformed LZ4 frame headers as errors with
 the lz_pure feature

---
 src/compression/lz_pure.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index 021c0a3..cefc3eb 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    Error,
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -6,6 +8,7 @@ use std::io::{
 
 use lz_fear::framed::{
     CompressionSettings,
+    LZ4FrameIoReader,
     LZ4FrameReader,
 };
 use serde::{
@@ -61,13 +64,34 @@ impl Default for Lz4Compression {
     }
 }
 
+/// Opens the LZ4 frame on the first read, so that a malformed frame header is
+/// reported as an error of that read.
+enum LazyReader<R: Read> {
+    Unopened(R),
+    Opened(LZ4FrameIoReader<'static, R>),
+    Failed,
+}
+
+impl<R: Read> Read for LazyReader<R> {
+    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
+        if let LazyReader::Unopened(..) = self {
+            if let LazyReader::Unopened(r) = std::mem::replace(self, LazyReader::Failed) {
+                *self = LazyReader::Opened(LZ4FrameReader::new(r)?.into_read());
+            }
+        }
+        match self {
+            LazyReader::Opened(frame) => frame.read(buffer),
+            _ => Err(Error::new(
+                ErrorKind::InvalidData,
+                "malformed LZ4 frame header",
+            )),
+        }
+    }
+}
+
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(
-            LZ4FrameReader::new(r)
-                .expect("TODO: LZ4 returns a result here")
-                .into_read(),
-        )
+        Box::new(LazyReader::Unopened(r))
     }
 
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
-- 
2.43.0


From 97083806e73c14fcf4399610d7f5c8a64d16c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 21/30] fix: use a supported LZ4 block size with the lz_pure
 feature

---
 src/compression/lz_pure.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index cefc3eb..fd2d81e 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -52,6 +52,22 @@ pub struct Lz4Compression {
     block_size: i32,
 }
 
+impl Lz4Compression {
+    /// LZ4 frames only support four block sizes, so choose the smallest larger
+    /// size from these.
+    fn get_effective_block_size(&self) -> usize {
+        if self.block_size <= 1 << 16 {
+            1 << 16
+        } else if self.block_size <= 1 << 18 {
+            1 << 18
+        } else if self.block_size <= 1 << 20 {
+            1 << 20
+        } else {
+            1 << 22
+        }
+    }
+}
+
 fn default_lz4_block_size() -> i32 {
     65_536
 }
@@ -97,7 +113,7 @@ impl Compression for Lz4Compression {
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
         let mut settings = CompressionSettings::default();
         settings
-            .block_size(self.block_size as usize)
+            .block_size(self.get_effective_block_size())
             .independent_blocks(true);
         Box::new(Wrapper {
             writer,
-- 
2.43.0


From 29786c28e4759a89bd86bbc71a92e3a3f3a7c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 22/30] fix: report out-of-bounds chunk reads as errors

---
 src/storage.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 56dcff5..6c39768 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -214,8 +214,12 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         VecDataChunk<T>: DataChunk<T> + ReadableDataChunk,
         T: ReflectedType,
     {
-        // TODO convert asserts to errors
-        assert!(array_meta.in_bounds(&grid_position));
+        if !array_meta.in_bounds(&grid_position) {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "Chunk grid position is out of bounds of the array",
+            ));
+        }
 
         // Construct chunk path string
         let chunk_key = get_chunk_key(path_name, array_meta, &grid_position);
@@ -245,8 +249,12 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         grid_position: GridCoord,
         chunk: &mut B,
     ) -> Result<Option<()>, Error> {
-        // TODO convert asserts to errors
-        assert!(array_meta.in_bounds(&grid_position));
+        if !array_meta.in_bounds(&grid_position) {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "Chunk grid position is out of bounds of the array",
+            ));
+        }
 
         // Construct chunk path string
         let chunk_key = get_chunk_key(path_name, array_meta, &grid_position);
-- 
2.43.0


From f7cda4053017abebc4021f0f17085c0c592e9ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 23/30] fix: reject array metadata with malformed chunk grids

---
 src/storage.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 6c39768..bb75cfd 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -168,6 +168,15 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         let value_reader = ReadableStore::get(self, &array_path.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
         let metadata: ArrayMetadata = serde_json::from_reader(value_reader)?;
+        if metadata.chunk_grid.grid_type != crate::REGULAR_GRID_TYPE
+            || metadata.chunk_grid.chunk_shape.len() != metadata.shape.len()
+            || metadata.chunk_grid.chunk_shape.contains(&0)
+        {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Array metadata does not describe a regular chunk grid of the array",
+            ));
+        }
         // TODO: erring immediately when encountering unknown extensions, while
         // it may be more appropriate to do so only when doing chunk IO.
         if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {
-- 
2.43.0


From 15a8ce628a6788995c0197f6265d91976e5f1728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 24/30] fix: do not truncate the number of elements of large
 chunks when reading

---
 src/chunk.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index a0e5c29..e93bb1a 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -265,6 +265,16 @@ fn check_array_type<T: ReflectedType>(array_meta: &ArrayMetadata) -> Result<()>
     }
 }
 
+/// The number of elements in each chunk of an array, which must be
+/// representable by `DataChunk`.
+fn get_chunk_num_elements(array_meta: &ArrayMetadata) -> Result<u32> {
+    array_meta
+        .get_chunk_shape()
+        .iter()
+        .try_fold(1u32, |n, &d| n.checked_mul(d))
+        .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Chunks have too many elements."))
+}
+
 /// Reads chunks from rust readers.
 pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     fn read_chunk(
@@ -278,7 +288,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
         check_array_type::<T>(array_meta)?;
 
         let mut chunk =
-            T::create_data_chunk(&grid_position, array_meta.get_chunk_num_elements() as u32);
+            T::create_data_chunk(&grid_position, get_chunk_num_elements(array_meta)?);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
 
@@ -293,7 +303,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     ) -> Result<()> {
         check_array_type::<T>(array_meta)?;
 
-        chunk.reinitialize(&grid_position, array_meta.get_chunk_num_elements() as u32);
+        chunk.reinitialize(&grid_position, get_chunk_num_elements(array_meta)?);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
 
-- 
2.43.0


From 495c2fa5adc071f0f3e8364916fc7632d1a210e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:32 +0000
Subject: [PATCH 25/30] fix: do not truncate numbers of elements when
 validating chunk writes

---
 src/chunk.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index e93bb1a..856bb99 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -316,13 +316,14 @@ pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + Write
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
         check_array_type::<T>(array_meta)?;
 
-        if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+        let num_elements = chunk.get_data().len();
+        let chunk_num_elements = get_chunk_num_elements(array_meta)?;
+        if num_elements != chunk_num_elements as usize {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 format!(
                     "Can not write chunk with too few elements. Expected {} given {}",
-                    array_meta.get_chunk_num_elements(),
-                    chunk.get_num_elements()
+                    chunk_num_elements, num_elements
                 ),
             ));
         }
-- 
2.43.0


From c60d64dde2faaeac9de03f082bcfd8e33abf5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 26/30] fix: report metadata documents that are not objects
 when listing attributes

---
 src/storage.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index bb75cfd..823e92c 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -311,11 +311,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         // For now return an error.
         let value_reader = ReadableStore::get(self, &metadata_key.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
-        let mut value: serde_json::Value = serde_json::from_reader(value_reader)?;
-        let attrs = match value
-            .as_object_mut()
-            .and_then(|o| o.remove(ATTRIBUTES_NAME))
-        {
+        let mut value: JsonObject = serde_json::from_reader(value_reader)?;
+        let attrs = match value.remove(ATTRIBUTES_NAME) {
             Some(Value::Object(map)) => map,
             Some(v) => return Err(MetadataError::UnexpectedType(v).into()),
             _ => JsonObject::new(),
-- 
2.43.0


From dad71decb056ec3d5fb52840dad44c6388bbe1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 27/30] fix: report region writes with an offset of the wrong
 dimensionality

---
 src/ndarray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index b07b1b2..9eb2232 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -288,7 +288,7 @@ pub trait ZarrNdarrayWriter: HierarchyWriter {
         A: ndarray::AsArray<'a, T, ndarray::Dim<ndarray::IxDynImpl>>,
     {
         let array = array.into();
-        if array.ndim() != array_meta.get_ndim() {
+        if offset.len() != array_meta.get_ndim() || array.ndim() != array_meta.get_ndim() {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 "Wrong number of dimensions",
-- 
2.43.0


From ca083f78d775b54b58b21ddedbd20c0a4938fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 28/30] fix: take the fill value of half-precision floats as a
 number

---
 src/data_type.rs | 18 +++++++++++++++++-
 src/lib.rs       |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index e58800e..00a5b11 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -465,6 +465,11 @@ pub trait ReflectedType:
             vec![Self::default(); num_el as usize],
         )
     }
+
+    /// Get the element for a metadata `fill_value`.
+    fn from_fill_value(fill_value: &serde_json::Value) -> Result<Self, serde_json::Error> {
+        serde_json::from_value(fill_value.clone())
+    }
 }
 
 macro_rules! reflected_type {
@@ -484,10 +489,21 @@ macro_rules! reflected_type {
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B2, endian: NATIVE_ENDIAN}, i16);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B4, endian: NATIVE_ENDIAN}, i32);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B8, endian: NATIVE_ENDIAN}, i64);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B2, endian: NATIVE_ENDIAN}, f16);
 #[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32);
 #[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64);
 
+impl ReflectedType for f16 {
+    const ZARR_TYPE: DataType = DataType::Float {
+        size: FloatSize::B2,
+        endian: NATIVE_ENDIAN,
+    };
+
+    // `f16` deserializes from its bit representation rather than its value.
+    fn from_fill_value(fill_value: &serde_json::Value) -> Result<Self, serde_json::Error> {
+        serde_json::from_value(fill_value.clone()).map(f16::from_f64)
+    }
+}
+
 // TODO: As example
 #[rustfmt::skip] reflected_type!(DataType::Raw {size: 8}, [u8; 1]);
 #[rustfmt::skip] reflected_type!(DataType::Raw {size: 16}, [u8; 2]);
diff --git a/src/lib.rs b/src/lib.rs
index a65ed50..3b0decc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -448,7 +448,7 @@ impl ArrayMetadata {
     pub fn get_effective_fill_value<T: ReflectedType>(&self) -> Result<T, Error> {
         Ok(self
             .get_fill_value()
-            .map(|v| serde_json::from_value(v.clone()))
+            .map(T::from_fill_value)
             .transpose()?
             .unwrap_or_else(T::default))
     }
-- 
2.43.0


From 6218a61dda5ee3a8eed000ca5ea2ff40de5aaa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:15 +0000
Subject: [PATCH 29/30] fix: look for implicit groups inside the hierarchy only

---
 src/store/filesystem.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index ee1ff84..e9370e4 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -12,7 +12,10 @@ use std::io::{
     Result,
     Write,
 };
-use std::path::PathBuf;
+use std::path::{
+    Path,
+    PathBuf,
+};
 
 use fs2::FileExt;
 use serde_json::{
@@ -131,10 +134,11 @@ impl FilesystemHierarchy {
             let reader = BufReader::new(file);
             Ok(serde_json::from_reader(reader)?)
         } else {
-            let mut path = path;
             // TODO
-            path.set_extension("");
-            path.set_extension("");
+            // Strip the extensions of the key: the joined path may end in the
+            // base path's own file name.
+            let key = Path::new(key).with_extension("").with_extension("");
+            let path = self.get_path(&key.to_string_lossy())?;
             // Check for implicit group.
             if path.exists() && path.is_file() {
                 Ok(json!({}))
@@ -149,10 +153,7 @@ impl FilesystemHierarchy {
         // Note: cannot use `canonicalize` on both the constructed array path
         // and `base_path` and check `starts_with`, because `canonicalize` also
         // requires the path exist.
-        use std::path::{
-            Component,
-            Path,
-        };
+        use std::path::Component;
 
         // Normalize the path to be relative.
         let mut components = Path::new(key).components();
-- 
2.43.0


From 1c19072b0205a5ad5bef7fc77166aead423f3936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:06 +0000
Subject: [PATCH 30/30] fix: reject raw data type names with a signed size

---
 src/data_type.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 00a5b11..d4bd89f 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -184,7 +184,8 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
                 size: IntSize::B1,
                 endian: Endian::Little,
             },
-            dtype if dtype.starts_with('r') => {
+            // Digits only, since parsing an integer would also accept a sign.
+            dtype if dtype.starts_with('r') && dtype[1..].bytes().all(|b| b.is_ascii_digit()) => {
                 if let Ok(size) = dtype[1..].parse::<usize>() {
                     if size % 8 == 0 {
                         DataType::Raw { size }
-- 
2.43.0

