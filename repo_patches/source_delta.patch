From 9a5b20c8cce86f7a75614f0b6a51ebe9d7be63bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 01/16] fix: map lookup on an empty map returns None instead of
 dividing by zero

---
 src/rt.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rt.rs b/src/rt.rs
index bee9070..1285ed9 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -346,6 +346,11 @@ where
                 .map_err(|_| crate::ParcodeError::Format("Failed to read num_shards".into()))?,
         );
 
+        // An empty map has no buckets to search.
+        if num_shards == 0 {
+            return Ok(None);
+        }
+
         // 2. Hash & Select Shard
         let target_hash = crate::map::hash_key(key);
         let shard_idx = usize::try_from(target_hash).unwrap_or(0) % (num_shards as usize);
@@ -463,6 +468,11 @@ where
                 .map_err(|_| crate::ParcodeError::Format("Failed to read num_shards".into()))?,
         );
 
+        // An empty map has no buckets to search.
+        if num_shards == 0 {
+            return Ok(None);
+        }
+
         // 2. Hash & Select Shard
         let target_hash = crate::map::hash_key(key);
         let shard_idx = usize::try_from(target_hash).unwrap_or(0) % (num_shards as usize);
-- 
2.43.0


From 90c0976a34c604f14000449affb8bb16676485de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 02/16] fix: maps stored as a single blob are read back
 whatever their size, eagerly and lazily

---
 src/reader.rs |  3 ++-
 src/rt.rs     | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7acd7ee..191bcc2 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -532,10 +532,11 @@ where
     fn from_node(node: &ChunkNode<'_>) -> Result<Self> {
         // Standard HashMap reconstruction logic (same as before)
         let container_payload = node.read_raw()?;
-        if container_payload.len() < 4 {
+        if container_payload.is_empty() {
             return Ok(Self::new());
         }
 
+        // No buckets: the entries are a single blob, however short it is.
         if node.child_count == 0 {
             return node.decode();
         }
diff --git a/src/rt.rs b/src/rt.rs
index 1285ed9..9cf47c2 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -239,6 +239,11 @@ where
         }
     }
 
+    /// True when the map was written as one blob instead of hash-sharded buckets.
+    fn is_blob(&self) -> bool {
+        self.node.child_count() == 0 && self.node.payload_len() > 0
+    }
+
     /// Loads the full map by iterating all shards.
     ///
     /// This reconstructs the entire `HashMap` in memory by:
@@ -246,6 +251,11 @@ where
     /// 2. Iterating over each shard and deserializing its entries
     /// 3. Merging all entries into a single `HashMap`
     pub fn load(&self) -> Result<HashMap<K, V>> {
+        // Maps stored without the hash-sharded layout are a single blob.
+        if self.is_blob() {
+            return self.node.decode();
+        }
+
         // 1. Read number of shards from container
         let container_payload = self.node.read_raw()?;
         let num_shards = if container_payload.len() >= 4 {
@@ -333,6 +343,12 @@ where
     /// - O(N/S) linear scan within shard (where S = number of shards)
     /// - SIMD-optimized hash comparison on supported platforms
     pub fn get(&self, key: &K) -> Result<Option<V>> {
+        // Maps stored without the hash-sharded layout have no index to search.
+        if self.is_blob() {
+            let mut map: HashMap<K, V> = self.node.decode()?;
+            return Ok(map.remove(key));
+        }
+
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
         if container_payload.len() < 4 {
-- 
2.43.0


From b2000360443563b235d8adb7ca9fbdcd61a62304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:27 +0000
Subject: [PATCH 03/16] fix: parallel write falls back to no compression like
 the serial one when the algorithm is unavailable

---
 src/executor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/executor.rs b/src/executor.rs
index 216d151..e9c077b 100644
--- a/src/executor.rs
+++ b/src/executor.rs
@@ -314,7 +314,12 @@ fn process_node<'scope, 'a, W>(
         config.compression_id
     };
 
-    let compressor = match ctx.registry.get(compression_id) {
+    // Fallback to None (ID 0) if requested algorithm unavailable
+    let compressor = match ctx
+        .registry
+        .get(compression_id)
+        .or_else(|_| ctx.registry.get(0))
+    {
         Ok(c) => c,
         Err(e) => {
             ctx.signal_error(e);
-- 
2.43.0


From f7b647343516aca89a4d44ff771bbd522ec39739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:27 +0000
Subject: [PATCH 04/16] fix: reject chunk references that overflow or are empty
 instead of panicking

---
 src/reader.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 191bcc2..9cd40bc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -786,13 +786,16 @@ impl ParcodeFile {
     /// * `offset`: Absolute byte offset in the file.
     /// * `length`: Total length of the chunk including metadata.
     fn get_chunk(&self, offset: u64, length: u64) -> Result<ChunkNode<'_>> {
-        if offset + length > self.file_size {
-            return Err(ParcodeError::Format(format!(
-                "Chunk out of bounds: {} + {}",
-                offset, length
-            )));
+        let chunk_end = offset
+            .checked_add(length)
+            .filter(|end| *end <= self.file_size)
+            .ok_or_else(|| {
+                ParcodeError::Format(format!("Chunk out of bounds: {} + {}", offset, length))
+            })?;
+        if length == 0 {
+            return Err(ParcodeError::Format("Chunk too small for metadata".into()));
         }
-        let chunk_end = usize::try_from(offset + length)
+        let chunk_end = usize::try_from(chunk_end)
             .map_err(|_| ParcodeError::Format("Chunk end exceeds address space".into()))?;
 
         let meta_byte = self
-- 
2.43.0


From a6892254d3aa12d12465b205686b0a122e842cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:28 +0000
Subject: [PATCH 05/16] fix: corrupt item counts are reported instead of
 exhausting memory or panicking

---
 src/reader.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9cd40bc..fd13aab 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -374,7 +374,10 @@ pub trait ParcodeItem: Sized + Send + Sync + 'static {
             .map_err(|_| ParcodeError::Serialization("Vector length exceeds usize".into()))?;
 
         // Allocate uninit vec
-        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::with_capacity(count);
+        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::new();
+        uninit_vec.try_reserve_exact(count).map_err(|_| {
+            ParcodeError::Format(format!("Shard length {} cannot be allocated", count))
+        })?;
         #[allow(unsafe_code)]
         unsafe {
             uninit_vec.set_len(count);
@@ -966,6 +969,9 @@ impl<'a> ChunkNode<'a> {
                 if current_global_idx.checked_add(items_per_shard).is_none() {
                     return Err(ParcodeError::Format("Integer overflow in RLE".into()));
                 }
+                if current_shard_idx >= self.child_count as usize {
+                    return Err(ParcodeError::Format("RLE names missing shards".into()));
+                }
                 shard_jobs.push((current_shard_idx, current_global_idx, items_per_shard));
                 current_shard_idx += 1;
                 current_global_idx += items_per_shard;
@@ -984,7 +990,10 @@ impl<'a> ChunkNode<'a> {
         }
 
         // 4. Allocate Uninitialized Buffer
-        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::with_capacity(total_items);
+        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::new();
+        result_buffer
+            .try_reserve_exact(total_items)
+            .map_err(|_| ParcodeError::Format(format!("Cannot allocate {} items", total_items)))?;
         unsafe {
             result_buffer.set_len(total_items);
         }
-- 
2.43.0


From d41ab8ee1edca4b7ef7b5d2a5411b913e328f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:29 +0000
Subject: [PATCH 06/16] fix: corrupt shard run lengths no longer overflow in
 random access and inspection

---
 src/inspector.rs | 2 +-
 src/reader.rs    | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/inspector.rs b/src/inspector.rs
index 784af44..482188b 100644
--- a/src/inspector.rs
+++ b/src/inspector.rs
@@ -141,7 +141,7 @@ impl ParcodeInspector {
                     let distribution = format!(
                         "Vec<{}> items across {} logical shards",
                         total_items,
-                        runs.iter().map(|r| r.repeat).sum::<u32>()
+                        runs.iter().map(|r| u64::from(r.repeat)).sum::<u64>()
                     );
                     return ("Vec Container".to_string(), Some(distribution));
                 }
diff --git a/src/reader.rs b/src/reader.rs
index fd13aab..5656832 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1210,13 +1210,16 @@ impl<'a> ChunkNode<'a> {
 
         for run in runs {
             let count = run.item_count as usize;
-            let total_run = count * run.repeat as usize;
+            let run_end = count
+                .checked_mul(run.repeat as usize)
+                .and_then(|total_run| total_run.checked_add(current_base))
+                .ok_or_else(|| ParcodeError::Format("Integer overflow in RLE".into()))?;
 
-            if global_index < current_base + total_run {
+            if global_index < run_end {
                 let offset = global_index - current_base;
                 return Ok((shard_base + (offset / count), offset % count));
             }
-            current_base += total_run;
+            current_base = run_end;
             shard_base += run.repeat as usize;
         }
         Err(ParcodeError::Format("Index out of bounds".into()))
-- 
2.43.0


From cfd6f74f42a2fba8b4624161ba5db54a903cc9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 07/16] fix: reject child references that do not precede their
 parent, so corrupt cycles cannot recurse forever

---
 src/reader.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 5656832..abce39d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1200,6 +1200,17 @@ impl<'a> ChunkNode<'a> {
             .ok_or_else(|| ParcodeError::Format("Child reference out of bounds".into()))?;
 
         let r = ChildRef::from_bytes(bytes)?;
+
+        // Chunks are laid out bottom-up: a child that does not end before its parent
+        // starts is corrupt, and following it could lead back here forever.
+        if r.offset
+            .checked_add(r.length)
+            .is_none_or(|child_end| child_end > self.offset)
+        {
+            return Err(ParcodeError::Format(
+                "Child chunk does not precede its parent".into(),
+            ));
+        }
         self.reader.get_chunk(r.offset, r.length)
     }
 
-- 
2.43.0


From c9928fabee8f4fd274c9920063de9c4fa3190192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 08/16] fix: lazy iteration skips empty shards and never
 underflows its remaining count

---
 src/rt.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/rt.rs b/src/rt.rs
index 9cf47c2..90c86be 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -678,8 +678,8 @@ where
             return Ok(true);
         }
 
-        // Current shard finished. Load next.
-        if let Some(shard_node) = self.shards.next() {
+        // Current shard finished. Load next, skipping shards without items.
+        while let Some(shard_node) = self.shards.next() {
             // 1. Load Payload
             let payload = shard_node.read_raw()?;
 
@@ -698,10 +698,12 @@ where
             self.current_payload = Some(payload);
             self.current_children = children.into_iter();
 
-            Ok(true)
-        } else {
-            Ok(false) // No more shards
+            if len > 0 {
+                return Ok(true);
+            }
         }
+
+        Ok(false) // No more shards
     }
 }
 
@@ -740,7 +742,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.total_items - self.items_yielded;
+        let remaining = self.total_items.saturating_sub(self.items_yielded);
         (remaining, Some(remaining))
     }
 }
@@ -750,7 +752,7 @@ where
     T: ParcodeLazyRef<'a>,
 {
     fn len(&self) -> usize {
-        self.total_items - self.items_yielded
+        self.total_items.saturating_sub(self.items_yielded)
     }
 }
 
-- 
2.43.0


From 65353e0a25f6555f964170fe5902325f5d2a6702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:50 +0000
Subject: [PATCH 09/16] fix: get_lazy on map values whose remote fields precede
 local ones reads the right bytes

---
 parcode-derive/src/lib.rs | 68 +++++++++++++++++++++++++++++++--------
 src/rt.rs                 | 13 ++++++--
 2 files changed, 66 insertions(+), 15 deletions(-)

diff --git a/parcode-derive/src/lib.rs b/parcode-derive/src/lib.rs
index 1ab4485..19bdc0b 100644
--- a/parcode-derive/src/lib.rs
+++ b/parcode-derive/src/lib.rs
@@ -26,6 +26,8 @@ pub fn derive_parcode_object(input: TokenStream) -> TokenStream {
 
     let mut locals = Vec::new();
     let mut remotes = Vec::new();
+    // Fields in declaration order, with whether each one is remote.
+    let mut declared = Vec::new();
 
     for field in data_struct.fields {
         // Parse attributes.
@@ -34,6 +36,11 @@ pub fn derive_parcode_object(input: TokenStream) -> TokenStream {
             Err(e) => return e.to_compile_error().into(),
         };
 
+        declared.push((
+            field.ident.clone().unwrap(),
+            field.ty.clone(),
+            is_chunkable || is_map,
+        ));
         // If it's 'map', it's implicitly chunkable (it's a child node).
         if is_chunkable || is_map {
             remotes.push(RemoteField {
@@ -54,7 +61,7 @@ pub fn derive_parcode_object(input: TokenStream) -> TokenStream {
     let impl_job = generate_serialization_job(&name, &locals);
     let impl_native = generate_native_reader(&name, &locals, &remotes);
     let impl_item = generate_parcode_item(&name, &locals, &remotes);
-    let impl_lazy = generate_lazy_mirror(&name, &locals, &remotes);
+    let impl_lazy = generate_lazy_mirror(&name, &locals, &remotes, &declared);
 
     let expanded = quote! {
         #impl_visitor
@@ -352,6 +359,7 @@ fn generate_lazy_mirror(
     name: &syn::Ident,
     locals: &[LocalField],
     remotes: &[RemoteField],
+    declared: &[(syn::Ident, syn::Type, bool)],
 ) -> proc_macro2::TokenStream {
     let lazy_name = syn::Ident::new(&format!("{}Lazy", name), name.span());
 
@@ -368,18 +376,16 @@ fn generate_lazy_mirror(
             quote! { pub #n: <#t as parcode::rt::ParcodeLazyRef<'a>>::Lazy }
         }));
 
-    // Logic to read from stream (reusable block)
-    let read_logic = {
-        let read_locals = locals.iter().map(|f| {
-            let n = &f.ident;
-            let t = &f.ty;
-            quote! {
-                let #n: #t = parcode::internal::bincode::serde::decode_from_std_read(
-                    &mut reader, parcode::internal::bincode::config::standard()
-                ).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))?;
-            }
-        });
+    let read_field = |pat: proc_macro2::TokenStream, t: &syn::Type| {
+        quote! {
+            let #pat: #t = parcode::internal::bincode::serde::decode_from_std_read(
+                &mut reader, parcode::internal::bincode::config::standard()
+            ).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))?;
+        }
+    };
 
+    // Logic to read from stream (reusable block)
+    let read_logic = |read_locals: Vec<proc_macro2::TokenStream>| {
         let assign_remotes = remotes.iter().map(|f| {
             let n = &f.ident;
             let t = &f.ty;
@@ -405,6 +411,40 @@ fn generate_lazy_mirror(
         }
     };
 
+    let read_stream = read_logic(
+        locals
+            .iter()
+            .map(|f| (&f.ident, &f.ty))
+            .map(|(n, t)| read_field(quote! { #n }, t))
+            .collect(),
+    );
+
+    // A whole value has its remote fields inline too: step over those that precede a local.
+    let inline_end = declared
+        .iter()
+        .rposition(|(_, _, is_remote)| !is_remote)
+        .map_or(0, |last_local| last_local + 1);
+    let inline = declared.get(..inline_end).unwrap_or(&[]);
+    let read_whole = inline.iter().any(|(_, _, is_remote)| *is_remote).then(|| {
+        let read_whole = read_logic(
+            inline
+                .iter()
+                .map(|(n, t, is_remote)| match is_remote {
+                    true => read_field(quote! { _ }, t),
+                    false => read_field(quote! { #n }, t),
+                })
+                .collect(),
+        );
+        quote! {
+            fn read_lazy_from_whole(
+                mut reader: &mut std::io::Cursor<&[u8]>,
+                mut child_iter: &mut std::vec::IntoIter<parcode::reader::ChunkNode<'a>>
+            ) -> parcode::Result<Self::Lazy> {
+                #read_whole
+            }
+        }
+    });
+
     quote! {
         #[derive(Debug)]
         #[allow(missing_docs)]
@@ -429,8 +469,10 @@ fn generate_lazy_mirror(
                 mut reader: &mut std::io::Cursor<&[u8]>,
                 mut child_iter: &mut std::vec::IntoIter<parcode::reader::ChunkNode<'a>>
             ) -> parcode::Result<Self::Lazy> {
-                #read_logic
+                #read_stream
             }
+
+            #read_whole
         }
     }
 }
diff --git a/src/rt.rs b/src/rt.rs
index 90c86be..f9fbb47 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -73,6 +73,15 @@ pub trait ParcodeLazyRef<'a>: Sized {
         reader: &mut Cursor<&[u8]>,
         children: &mut IntoIter<ChunkNode<'a>>,
     ) -> Result<Self::Lazy>;
+
+    /// Creates the lazy view from a whole value (Inside map access), whose remote fields
+    /// are also present inline, in declaration order.
+    fn read_lazy_from_whole(
+        reader: &mut Cursor<&[u8]>,
+        children: &mut IntoIter<ChunkNode<'a>>,
+    ) -> Result<Self::Lazy> {
+        Self::read_lazy_from_stream(reader, children)
+    }
 }
 
 /// A terminal promise for a single value.
@@ -595,7 +604,7 @@ where
                     .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?;
 
             // Read V (Lazy) - this consumes children
-            let _ = V::read_lazy_from_stream(&mut cursor, &mut child_iter)?;
+            let _ = V::read_lazy_from_whole(&mut cursor, &mut child_iter)?;
         }
 
         // 6. Read the target item
@@ -619,7 +628,7 @@ where
             .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?;
 
         // Read V (Lazy) and return
-        let lazy_val = V::read_lazy_from_stream(&mut cursor, &mut child_iter)?;
+        let lazy_val = V::read_lazy_from_whole(&mut cursor, &mut child_iter)?;
 
         Ok(Some(lazy_val))
     }
-- 
2.43.0


From 1cb756be7265e2f33852cc0348faa040235a20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 10/16] fix: LZ4 data that decodes to less than its announced
 size is an error

---
 src/compression.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compression.rs b/src/compression.rs
index d96d465..dff5f6b 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -293,6 +293,13 @@ impl Compressor for Lz4Compressor {
     fn decompress<'a>(&self, data: &'a [u8]) -> Result<Cow<'a, [u8]>> {
         let vec = lz4_flex::decompress_size_prepended(data)
             .map_err(|e| ParcodeError::Compression(e.to_string()))?;
+        // A block cut at a sequence boundary still decodes, to less than its size prefix announces.
+        let announced = data.get(..4).and_then(|p| p.try_into().ok()).map(u32::from_le_bytes);
+        if u32::try_from(vec.len()).ok() != announced {
+            return Err(ParcodeError::Compression(
+                "LZ4 data is shorter than its size prefix announces".to_string(),
+            ));
+        }
         Ok(Cow::Owned(vec))
     }
 
-- 
2.43.0


From 860abbf9da39c16a9784bb4334ddac8af28d1f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 11/16] fix: streaming a vector ends after an error and does
 not recurse over empty shards

---
 src/reader.rs | 65 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index abce39d..f4756a2 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1296,6 +1296,12 @@ impl<'a, T> ChunkIterator<'a, T> {
             _marker: PhantomData,
         }
     }
+
+    /// Reports an error and ends the iteration: a shard that cannot be read never will be.
+    fn fail(&mut self, error: ParcodeError) -> Option<Result<T>> {
+        self.current_global_idx = self.total_items;
+        Some(Err(error))
+    }
 }
 
 impl<'a, T: ParcodeItem> Iterator for ChunkIterator<'a, T> {
@@ -1306,38 +1312,39 @@ impl<'a, T: ParcodeItem> Iterator for ChunkIterator<'a, T> {
             return None;
         }
 
-        // 1. Try to pull from current loaded shard
-        if let Some(item) = self.current_items_in_shard.next() {
-            self.current_global_idx += 1;
-            return Some(Ok(item));
-        }
+        loop {
+            // 1. Try to pull from current loaded shard
+            if let Some(item) = self.current_items_in_shard.next() {
+                self.current_global_idx += 1;
+                return Some(Ok(item));
+            }
 
-        // 2. Buffer empty? Load next shard
-        if self.current_shard_idx >= self.container.child_count as usize {
-            return Some(Err(ParcodeError::Internal(
-                "Iterator mismatch: runs out of shards".into(),
-            )));
-        }
+            // 2. Buffer empty? Load next shard
+            if self.current_shard_idx >= self.container.child_count as usize {
+                return self.fail(ParcodeError::Internal(
+                    "Iterator mismatch: runs out of shards".into(),
+                ));
+            }
 
-        // Load logic
-        let next_shard_res = self
-            .container
-            .get_child_by_index(self.current_shard_idx)
-            .and_then(|node| {
-                let payload = node.read_raw()?;
-                let mut cursor = std::io::Cursor::new(payload.as_ref());
-                let children = node.children()?;
-                let mut child_iter = children.into_iter();
-                T::read_slice_from_shard(&mut cursor, &mut child_iter)
-            });
-
-        match next_shard_res {
-            Ok(items) => {
-                self.current_items_in_shard = items.into_iter();
-                self.current_shard_idx += 1;
-                self.next()
+            // Load logic
+            let next_shard_res = self
+                .container
+                .get_child_by_index(self.current_shard_idx)
+                .and_then(|node| {
+                    let payload = node.read_raw()?;
+                    let mut cursor = std::io::Cursor::new(payload.as_ref());
+                    let children = node.children()?;
+                    let mut child_iter = children.into_iter();
+                    T::read_slice_from_shard(&mut cursor, &mut child_iter)
+                });
+
+            match next_shard_res {
+                Ok(items) => {
+                    self.current_items_in_shard = items.into_iter();
+                    self.current_shard_idx += 1;
+                }
+                Err(e) => return self.fail(e),
             }
-            Err(e) => Some(Err(e)),
         }
     }
 }
-- 
2.43.0


From 15d7b4a10bcb107aa7dee99c090ac2c96ecaeddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:36 +0000
Subject: [PATCH 12/16] fix: lazy iteration ends after an error instead of
 reading from an unknown position

---
 src/rt.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rt.rs b/src/rt.rs
index f9fbb47..65f1d88 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -714,6 +714,13 @@ where
 
         Ok(false) // No more shards
     }
+
+    /// Ends the iteration: after an error the position of the next item is unknown.
+    fn stop(&mut self) {
+        self.shards = Vec::new().into_iter();
+        self.items_left_in_shard = 0;
+        self.items_yielded = self.total_items;
+    }
 }
 
 impl<'a, T> Iterator for ParcodeLazyIterator<'a, T>
@@ -727,7 +734,10 @@ where
         match self.ensure_shard_loaded() {
             Ok(true) => {}
             Ok(false) => return None, // End of iteration
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.stop();
+                return Some(Err(e));
+            }
         }
 
         // 2. Prepare Cursor at current position
@@ -746,6 +756,9 @@ where
         self.current_pos = cursor.position();
         self.items_left_in_shard -= 1;
         self.items_yielded += 1;
+        if result.is_err() {
+            self.stop();
+        }
 
         Some(result)
     }
-- 
2.43.0


From be99084bcda97c3d4427d7fd6b940c632314e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 13/16] fix: get_lazy no longer decodes an item past the end of
 its shard when the shard table disagrees with the shard

---
 src/rt.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rt.rs b/src/rt.rs
index 65f1d88..cd8c5ff 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -182,10 +182,18 @@ where
 
         // Skip Vector Length (u64)
         // Shards created by ParcodeVisitor::serialize_slice always have a length prefix.
-        let _len: u64 =
+        let len: u64 =
             bincode::serde::decode_from_std_read(&mut cursor, bincode::config::standard())
                 .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?;
 
+        // The shard table may name an item the shard does not hold.
+        if index_in_shard as u64 >= len {
+            return Err(crate::ParcodeError::Format(format!(
+                "Item {} requested from a shard of {}",
+                index_in_shard, len
+            )));
+        }
+
         // 3. Scan and Skip previous items
         // We read them as Lazy objects and discard them.
         for _ in 0..index_in_shard {
-- 
2.43.0


From 66af353720112d73924bed08b1454fe9c35bff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:55 +0000
Subject: [PATCH 14/16] fix: the derive accepts fields named like the variables
 of its generated code

---
 parcode-derive/src/lib.rs | 46 +++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/parcode-derive/src/lib.rs b/parcode-derive/src/lib.rs
index 19bdc0b..77a449f 100644
--- a/parcode-derive/src/lib.rs
+++ b/parcode-derive/src/lib.rs
@@ -86,6 +86,14 @@ struct RemoteField {
     is_map: bool,
 }
 
+/// The variable that holds a field that was read. It is distinct from the variables that the
+/// generated code has for itself, whatever the field is called.
+fn variable(field: &syn::Ident) -> syn::Ident {
+    let mut var = field.clone();
+    var.set_span(field.span().resolved_at(proc_macro2::Span::mixed_site()));
+    var
+}
+
 /// Parses attributes. Returns (is_chunkable, compression_id, is_map).
 fn parse_attributes(attrs: &[Attribute]) -> syn::Result<(bool, u8, bool)> {
     let mut is_chunkable = false;
@@ -265,10 +273,10 @@ fn generate_native_reader(
     remotes: &[RemoteField],
 ) -> proc_macro2::TokenStream {
     let read_locals = locals.iter().map(|f| {
-        let fname = &f.ident;
+        let var = variable(&f.ident);
         let fty = &f.ty;
         quote! {
-            let #fname: #fty = parcode::internal::bincode::serde::decode_from_std_read(
+            let #var: #fty = parcode::internal::bincode::serde::decode_from_std_read(
                 &mut reader, parcode::internal::bincode::config::standard()
             ).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))?;
         }
@@ -276,10 +284,11 @@ fn generate_native_reader(
 
     let read_remotes = remotes.iter().map(|f| {
         let fname = &f.ident;
+        let var = variable(fname);
         let fty = &f.ty;
         quote! {
             let child_node = child_iter.next().ok_or_else(|| parcode::ParcodeError::Format(format!("Missing child for '{}'", stringify!(#fname))))?;
-            let #fname: #fty = parcode::reader::ParcodeNative::from_node(&child_node)?;
+            let #var: #fty = parcode::reader::ParcodeNative::from_node(&child_node)?;
         }
     });
 
@@ -290,6 +299,7 @@ fn generate_native_reader(
     for f in remotes {
         field_names.push(&f.ident);
     }
+    let variables = field_names.iter().map(|n| variable(n));
 
     quote! {
         impl parcode::reader::ParcodeNative for #name {
@@ -300,7 +310,7 @@ fn generate_native_reader(
                 let children = node.children()?;
                 let mut child_iter = children.into_iter();
                 #(#read_remotes)*
-                Ok(Self { #(#field_names),* })
+                Ok(Self { #(#field_names: #variables),* })
             }
         }
     }
@@ -313,10 +323,10 @@ fn generate_parcode_item(
     remotes: &[RemoteField],
 ) -> proc_macro2::TokenStream {
     let read_locals = locals.iter().map(|f| {
-        let fname = &f.ident;
+        let var = variable(&f.ident);
         let fty = &f.ty;
         quote! {
-            let #fname: #fty = parcode::internal::bincode::serde::decode_from_std_read(
+            let #var: #fty = parcode::internal::bincode::serde::decode_from_std_read(
                 reader, parcode::internal::bincode::config::standard()
             ).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))?;
         }
@@ -324,10 +334,11 @@ fn generate_parcode_item(
 
     let read_remotes = remotes.iter().map(|f| {
         let fname = &f.ident;
+        let var = variable(fname);
         let fty = &f.ty;
         quote! {
             let child_node = children.next().ok_or_else(|| parcode::ParcodeError::Format(format!("Missing child for '{}'", stringify!(#fname))))?;
-            let #fname: #fty = parcode::reader::ParcodeNative::from_node(&child_node)?;
+            let #var: #fty = parcode::reader::ParcodeNative::from_node(&child_node)?;
         }
     });
 
@@ -338,6 +349,7 @@ fn generate_parcode_item(
     for f in remotes {
         field_names.push(&f.ident);
     }
+    let variables = field_names.iter().map(|n| variable(n));
 
     quote! {
         impl parcode::reader::ParcodeItem for #name {
@@ -347,7 +359,7 @@ fn generate_parcode_item(
             ) -> parcode::Result<Self> {
                 #(#read_locals)*
                 #(#read_remotes)*
-                Ok(Self { #(#field_names),* })
+                Ok(Self { #(#field_names: #variables),* })
             }
         }
     }
@@ -388,10 +400,11 @@ fn generate_lazy_mirror(
     let read_logic = |read_locals: Vec<proc_macro2::TokenStream>| {
         let assign_remotes = remotes.iter().map(|f| {
             let n = &f.ident;
+            let var = variable(n);
             let t = &f.ty;
             quote! {
                 let child_node = child_iter.next().ok_or_else(|| parcode::ParcodeError::Format(format!("Missing child node for field '{}'", stringify!(#n))))?;
-                let #n = <#t as parcode::rt::ParcodeLazyRef<'a>>::create_lazy(child_node)?;
+                let #var = <#t as parcode::rt::ParcodeLazyRef<'a>>::create_lazy(child_node)?;
             }
         });
 
@@ -399,14 +412,15 @@ fn generate_lazy_mirror(
             .iter()
             .map(|f| &f.ident)
             .chain(remotes.iter().map(|f| &f.ident));
+        let variables = field_names.clone().map(variable);
 
         quote! {
             #(#read_locals)*
             #(#assign_remotes)*
 
             Ok(#lazy_name {
-                #(#field_names,)*
-                _marker: std::marker::PhantomData,
+                #(#field_names: #variables,)*
+                __marker: std::marker::PhantomData,
             })
         }
     };
@@ -415,7 +429,8 @@ fn generate_lazy_mirror(
         locals
             .iter()
             .map(|f| (&f.ident, &f.ty))
-            .map(|(n, t)| read_field(quote! { #n }, t))
+            .map(|(n, t)| (variable(n), t))
+            .map(|(var, t)| read_field(quote! { #var }, t))
             .collect(),
     );
 
@@ -431,7 +446,10 @@ fn generate_lazy_mirror(
                 .iter()
                 .map(|(n, t, is_remote)| match is_remote {
                     true => read_field(quote! { _ }, t),
-                    false => read_field(quote! { #n }, t),
+                    false => {
+                        let var = variable(n);
+                        read_field(quote! { #var }, t)
+                    }
                 })
                 .collect(),
         );
@@ -450,7 +468,7 @@ fn generate_lazy_mirror(
         #[allow(missing_docs)]
         pub struct #lazy_name<'a> {
             #(#lazy_fields_def,)*
-            _marker: std::marker::PhantomData<&'a ()>,
+            __marker: std::marker::PhantomData<&'a ()>,
         }
 
         impl<'a> parcode::rt::ParcodeLazyRef<'a> for #name {
-- 
2.43.0


From 75c86148d070fc60797a9134abfa5d1dd7e8556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:55 +0000
Subject: [PATCH 15/16] fix: get_lazy on map values with serde attributes reads
 what serde wrote

---
 parcode-derive/src/lib.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/parcode-derive/src/lib.rs b/parcode-derive/src/lib.rs
index 77a449f..b26edd6 100644
--- a/parcode-derive/src/lib.rs
+++ b/parcode-derive/src/lib.rs
@@ -28,6 +28,9 @@ pub fn derive_parcode_object(input: TokenStream) -> TokenStream {
     let mut remotes = Vec::new();
     // Fields in declaration order, with whether each one is remote.
     let mut declared = Vec::new();
+    // Serde attributes may give a whole value another encoding than its fields have one by one.
+    let is_serde = |a: &Attribute| a.path().is_ident("serde");
+    let mut recoded = input.attrs.iter().any(is_serde);
 
     for field in data_struct.fields {
         // Parse attributes.
@@ -36,6 +39,7 @@ pub fn derive_parcode_object(input: TokenStream) -> TokenStream {
             Err(e) => return e.to_compile_error().into(),
         };
 
+        recoded |= field.attrs.iter().any(is_serde);
         declared.push((
             field.ident.clone().unwrap(),
             field.ty.clone(),
@@ -61,7 +65,7 @@ pub fn derive_parcode_object(input: TokenStream) -> TokenStream {
     let impl_job = generate_serialization_job(&name, &locals);
     let impl_native = generate_native_reader(&name, &locals, &remotes);
     let impl_item = generate_parcode_item(&name, &locals, &remotes);
-    let impl_lazy = generate_lazy_mirror(&name, &locals, &remotes, &declared);
+    let impl_lazy = generate_lazy_mirror(&name, &locals, &remotes, &declared, recoded);
 
     let expanded = quote! {
         #impl_visitor
@@ -372,6 +376,7 @@ fn generate_lazy_mirror(
     locals: &[LocalField],
     remotes: &[RemoteField],
     declared: &[(syn::Ident, syn::Type, bool)],
+    recoded: bool,
 ) -> proc_macro2::TokenStream {
     let lazy_name = syn::Ident::new(&format!("{}Lazy", name), name.span());
 
@@ -440,8 +445,8 @@ fn generate_lazy_mirror(
         .rposition(|(_, _, is_remote)| !is_remote)
         .map_or(0, |last_local| last_local + 1);
     let inline = declared.get(..inline_end).unwrap_or(&[]);
-    let read_whole = inline.iter().any(|(_, _, is_remote)| *is_remote).then(|| {
-        let read_whole = read_logic(
+    let read_inline = inline.iter().any(|(_, _, is_remote)| *is_remote).then(|| {
+        read_logic(
             inline
                 .iter()
                 .map(|(n, t, is_remote)| match is_remote {
@@ -452,7 +457,20 @@ fn generate_lazy_mirror(
                     }
                 })
                 .collect(),
-        );
+        )
+    });
+    // Let serde decode the whole value, and read its local fields from their own encoding.
+    let read_recoded = recoded.then(|| {
+        quote! {
+            let whole: Self = parcode::internal::bincode::serde::decode_from_std_read(
+                &mut reader, parcode::internal::bincode::config::standard()
+            ).map_err(|e| parcode::ParcodeError::Serialization(e.to_string()))?;
+            let mut shallow = Vec::new();
+            parcode::visitor::ParcodeVisitor::serialize_shallow(&whole, &mut shallow)?;
+            Self::read_lazy_from_stream(&mut std::io::Cursor::new(shallow.as_slice()), child_iter)
+        }
+    });
+    let read_whole = read_recoded.or(read_inline).map(|read_whole| {
         quote! {
             fn read_lazy_from_whole(
                 mut reader: &mut std::io::Cursor<&[u8]>,
-- 
2.43.0


From b5c615e3e0fc49c33e8633bd8ca15c40c236bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:55 +0000
Subject: [PATCH 16/16] fix: get_lazy finds the entries of maps stored as a
 single blob

---
 src/rt.rs | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/rt.rs b/src/rt.rs
index cd8c5ff..a813fad 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -243,6 +243,13 @@ pub struct ParcodeMapPromise<'a, K, V> {
     _m: PhantomData<(K, V)>,
 }
 
+impl<K, V> ParcodeMapPromise<'_, K, V> {
+    /// True when the map was written as one blob instead of hash-sharded buckets.
+    fn is_blob(&self) -> bool {
+        self.node.child_count() == 0 && self.node.payload_len() > 0
+    }
+}
+
 impl<'a, K, V> ParcodeMapPromise<'a, K, V>
 where
     K: Hash + Eq + DeserializeOwned,
@@ -256,11 +263,6 @@ where
         }
     }
 
-    /// True when the map was written as one blob instead of hash-sharded buckets.
-    fn is_blob(&self) -> bool {
-        self.node.child_count() == 0 && self.node.payload_len() > 0
-    }
-
     /// Loads the full map by iterating all shards.
     ///
     /// This reconstructs the entire `HashMap` in memory by:
@@ -488,6 +490,10 @@ where
     /// This returns a Lazy Mirror of the value, allowing access to its local fields
     /// without loading its heavy dependencies.
     pub fn get_lazy(&self, key: &K) -> Result<Option<V::Lazy>> {
+        if self.is_blob() {
+            return self.get_lazy_from_blob(key);
+        }
+
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
         if container_payload.len() < 4 {
@@ -640,6 +646,29 @@ where
 
         Ok(Some(lazy_val))
     }
+
+    /// Searches a map that was stored without the hash-sharded layout, entry by entry.
+    ///
+    /// Its values have no chunks of their own, so this fails for values with remote fields.
+    fn get_lazy_from_blob(&self, key: &K) -> Result<Option<V::Lazy>> {
+        let payload = self.node.read_raw()?;
+        let mut cursor = Cursor::new(payload.as_ref());
+        let count: u64 =
+            bincode::serde::decode_from_std_read(&mut cursor, bincode::config::standard())
+                .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?;
+
+        for _ in 0..count {
+            let stored_key: K =
+                bincode::serde::decode_from_std_read(&mut cursor, bincode::config::standard())
+                    .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?;
+            let lazy_val = V::read_lazy_from_whole(&mut cursor, &mut Vec::new().into_iter())?;
+
+            if &stored_key == key {
+                return Ok(Some(lazy_val));
+            }
+        }
+        Ok(None)
+    }
 }
 
 /// Streaming iterator for lazy collections.
-- 
2.43.0

