From def947f66e087d8574bb620781f5638dd7340acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 01/33] fix: skip varint fields of any length

Skipping a varint decoded it as a u8, whose shift overflows from the third byte on.
---
 steit/src/de/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 3aaba8a..5a11b87 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -43,7 +43,8 @@ impl<R: io::Read> Reader<R> {
     pub fn skip_field(&mut self, wire_type: WireType) -> io::Result<()> {
         match wire_type {
             WireType::Varint => {
-                u8::deserialize(self)?;
+                // Unlike integers, `bool` accepts any number of bytes without keeping their bits.
+                bool::deserialize(self)?;
             }
 
             WireType::Sized => {
-- 
2.43.0


From d4f3ec6ddfa63c3f4471a8ee125bd542abb4a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 02/33] fix: decode overlong varints without overflowing the
 shift

---
 steit/src/impls/varint.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 4a880fe..5a3b205 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -50,14 +50,17 @@ macro_rules! impl_unsigned_varint {
 
                     loop {
                         reader.read_exact(&mut buf)?;
-                        value |= (buf[0] & 0x7f) as $type << offset;
+
+                        // Bits which don't fit in the type are dropped.
+                        if offset < std::mem::size_of::<$type>() << 3 {
+                            value |= (buf[0] & 0x7f) as $type << offset;
+                            offset += 7;
+                        }
 
                         if buf[0] & 0x80 == 0 {
                             *self = value;
                             return Ok(());
                         }
-
-                        offset += 7;
                     }
                 }
             }
-- 
2.43.0


From cc2950797be623437c61970d18d5f7ae6c9a6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 03/33] fix: skip sized fields without trusting their declared
 size

The declared size was allocated up front, which panics or exhausts memory on
malformed input, and a field shorter than its declared size was accepted.
---
 steit/src/de/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 5a11b87..995d3e7 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -49,8 +49,11 @@ impl<R: io::Read> Reader<R> {
 
             WireType::Sized => {
                 let size = u64::deserialize(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
-                self.by_ref().take(size).read_to_end(&mut buf)?;
+                let skipped = io::copy(&mut self.by_ref().take(size), &mut io::sink())?;
+
+                if skipped < size {
+                    return Err(io::ErrorKind::UnexpectedEof.into());
+                }
             }
         }
 
-- 
2.43.0


From 8b148aa5516b5c8e75f3900703f63cb8342ad39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:08 +0000
Subject: [PATCH 04/33] fix: reject nested values which end before their
 declared size

A torn log tail was replayed as if its last entry were complete.
---
 steit/src/de/reader.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 995d3e7..2e3a222 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -27,12 +27,10 @@ impl<R: io::Read> Reader<R> {
         self.inner.eof()
     }
 
-    pub fn nested(&mut self) -> io::Result<Reader<io::Take<Reader<&mut dyn io::Read>>>> {
-        let size = u64::deserialize(self)?;
-        let reader = self.as_mut_read().take(size);
-        Ok(Reader {
-            inner: Eof::new(reader)
-        })
+    pub fn nested(&mut self) -> io::Result<Reader<Nested<Reader<&mut dyn io::Read>>>> {
+        let remaining = u64::deserialize(self)?;
+        let inner = self.as_mut_read();
+        Ok(Reader::new(Nested { inner, remaining }))
     }
 
     pub fn read_tag(&mut self) -> io::Result<(u32, WireType)> {
@@ -76,3 +74,27 @@ impl<R: io::Read> From<R> for Reader<R> {
         Self::new(inner)
     }
 }
+
+/// Reads exactly `remaining` bytes, and fails if the inner reader ends before that.
+pub struct Nested<R: io::Read> {
+    inner: R,
+    remaining: u64,
+}
+
+impl<R: io::Read> io::Read for Nested<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let max = self.remaining.min(buf.len() as u64) as usize;
+
+        if max == 0 {
+            return Ok(0);
+        }
+
+        match self.inner.read(&mut buf[..max])? {
+            0 => Err(io::ErrorKind::UnexpectedEof.into()),
+            len => {
+                self.remaining -= len as u64;
+                Ok(len)
+            }
+        }
+    }
+}
-- 
2.43.0


From d7fac1678f2ca21d9bd99738e2d34a5bdfbbb969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 05/33] fix: set runtime of the value inserted into a Map

Mutations made to a value after its insertion were logged elsewhere, or not at all.
---
 steit/src/types/map/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 96350fc..d21dce6 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -58,8 +58,9 @@ impl<K: MapKey, V: State> Map<K, V> {
         self.entries.get_mut(&key.as_field_number())
     }
 
-    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+    pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
     }
-- 
2.43.0


From 20b305105ba8894ae0970cf84ed43391c3f58b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 06/33] fix: don't log the removal of a key absent from a Map

Such an entry fails when being replayed.
---
 steit/src/types/map/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index d21dce6..4f8cb24 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -75,6 +75,11 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn remove(&mut self, key: &K) -> Option<V> {
         let field_number = key.as_field_number();
+
+        if !self.entries.contains_key(&field_number) {
+            return None;
+        }
+
         self.runtime.log_map_remove(field_number).unwrap();
         self.entries.remove(&field_number)
     }
-- 
2.43.0


From d73da4bb647e5914dfa33ded02d0fa40fc2b9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 07/33] fix: set correct runtime of the item swapped by
 List::swap_remove

The runtime of an enum is one level deeper, so its sibling is in the wrong place.
---
 steit/src/types/list.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index e07e9b1..c62e5e0 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -103,8 +103,7 @@ impl<T: State> List<T> {
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
-            let runtime = removed.runtime().sibling(index as u32);
-            swapped.set_runtime(runtime);
+            swapped.set_runtime(self.runtime.nested(index as u32));
         }
 
         Some(removed)
-- 
2.43.0


From fdcdd09331e93618dc03fd0df709ab13cb3a2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:42 +0000
Subject: [PATCH 08/33] fix: detach values removed from a List or Map from its
 runtime

Mutations made to a removed value were logged under its former path.
---
 steit/src/state.rs         | 7 +++++++
 steit/src/types/list.rs    | 6 +++---
 steit/src/types/map/map.rs | 6 +++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/steit/src/state.rs b/steit/src/state.rs
index a5d3b7a..c04e086 100644
--- a/steit/src/state.rs
+++ b/steit/src/state.rs
@@ -57,6 +57,13 @@ pub trait State: Serialize + Deserialize {
     }
 }
 
+/// Detaches a value having just been removed from its container,
+/// so that it no longer logs to where it used to be.
+pub(crate) fn detached<T: State>(mut value: T) -> T {
+    value.set_runtime(Runtime::default());
+    value
+}
+
 fn unpack_log_entry(entry: LogEntry) -> (LogEntryKind, Vec<u32>, Option<u32>, Option<Vec<u8>>) {
     match entry {
         LogEntry::Update { path, value, .. } => {
diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index c62e5e0..20b02af 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -13,7 +13,7 @@ use crate::{
     meta::{FieldTypeMeta, HasMeta, MetaLink, NameMeta, TypeMeta},
     rt::{Runtime, SizeCache},
     ser::Serialize,
-    state::State,
+    state::{detached, State},
     wire_fmt::{HasWireType, WireType},
 };
 
@@ -73,7 +73,7 @@ impl<T: State> List<T> {
     pub fn pop(&mut self) -> Option<T> {
         if !self.items.is_empty() {
             self.runtime.log_list_pop().unwrap();
-            self.items.pop()
+            self.items.pop().map(detached)
         } else {
             None
         }
@@ -106,7 +106,7 @@ impl<T: State> List<T> {
             swapped.set_runtime(self.runtime.nested(index as u32));
         }
 
-        Some(removed)
+        Some(detached(removed))
     }
 
     pub fn iter_mut(&mut self) -> slice::IterMut<T> {
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 4f8cb24..6f5ddc8 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -9,7 +9,7 @@ use crate::{
     meta::{FieldTypeMeta, HasMeta, MetaLink, NameMeta, TypeMeta},
     rt::{Runtime, SizeCache},
     ser::Serialize,
-    state::State,
+    state::{detached, State},
     wire_fmt::{self, HasWireType, WireType},
 };
 
@@ -62,7 +62,7 @@ impl<K: MapKey, V: State> Map<K, V> {
         let field_number = key.as_field_number();
         value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
-        self.entries.insert(field_number, value)
+        self.entries.insert(field_number, value).map(detached)
     }
 
     pub fn insert_with(&mut self, key: K, get_value: impl FnOnce(Runtime) -> V) -> Option<V> {
@@ -81,7 +81,7 @@ impl<K: MapKey, V: State> Map<K, V> {
         }
 
         self.runtime.log_map_remove(field_number).unwrap();
-        self.entries.remove(&field_number)
+        self.entries.remove(&field_number).map(detached)
     }
 
     pub fn iter(&self) -> MapIter<K, V> {
-- 
2.43.0


From fc42a26a863a3529682a1a64a0aa3553d587a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:42 +0000
Subject: [PATCH 09/33] fix: nest runtime of Maybe under its variant tag

Maybe::some and Maybe::none took their runtime as is, unlike other enums.
---
 steit/src/types/maybe.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/maybe.rs b/steit/src/types/maybe.rs
index cce3f68..4649310 100644
--- a/steit/src/types/maybe.rs
+++ b/steit/src/types/maybe.rs
@@ -21,15 +21,18 @@ pub enum Maybe<T: State> {
 
 impl<T: State> Maybe<T> {
     pub fn some(runtime: Runtime, value: T) -> Self {
-        Maybe::Some {
+        let mut maybe = Maybe::Some {
             value,
             size_cache: SizeCache::new(),
-            runtime,
-        }
+            runtime: Runtime::default(),
+        };
+
+        maybe.set_runtime(runtime);
+        maybe
     }
 
     pub fn none(runtime: Runtime) -> Self {
-        Maybe::None { runtime }
+        Self::new_none(runtime)
     }
 
     pub fn from_option(runtime: Runtime, option: Option<T>) -> Self {
-- 
2.43.0


From 577d355ed7612ca5c0ad2fa9f0d4344c8d03bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:43 +0000
Subject: [PATCH 10/33] fix: make Box<T> use State methods overridden by T

A boxed enum wasn't considered a root, so it couldn't be replayed.
---
 steit/src/impls/box.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 7802a7c..3d6d5e5 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -56,6 +56,14 @@ impl<T: State> State for Box<T> {
     ) -> io::Result<()> {
         self.as_mut().handle(path, kind, key, reader)
     }
+
+    fn is_root(&self) -> bool {
+        self.as_ref().is_root()
+    }
+
+    fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+        self.as_mut().handle_update(reader)
+    }
 }
 
 impl<T: HasMeta> HasMeta for Box<T> {
-- 
2.43.0


From 56e037498280f328fac6f5cbf0c6bfadedb572ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:43 +0000
Subject: [PATCH 11/33] fix: validate keys inserted into a Map by replaying

An out-of-range key was accepted, and made iteration or serialization panic later on.
---
 steit/src/types/map/map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 6f5ddc8..29bf806 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -235,6 +235,9 @@ impl<K: MapKey, V: State> State for Map<K, V> {
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.handle(path, kind, key, reader)
             } else if kind == LogEntryKind::Update && path.next().is_none() {
+                wire_fmt::validate_field_number(field_number)?;
+                K::try_from_field_number(field_number)?;
+
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
                 value.merge(reader)?;
 
-- 
2.43.0


From 2e77083a6f05aa7c40a637f06152e94e2f7c5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:45 +0000
Subject: [PATCH 12/33] fix: skip Map values of another wire type when merging

Like struct fields, they were misread before.
---
 steit/src/types/map/map.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 29bf806..f69bc39 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -189,16 +189,19 @@ impl<K: MapKey, V: State> Serialize for Map<K, V> {
 impl<K: MapKey, V: State> Deserialize for Map<K, V> {
     fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
         while !reader.eof()? {
-            let field_number = u32::deserialize(reader)?;
-            let (field_number, _) = wire_fmt::parse_tag(field_number)?;
-            wire_fmt::validate_field_number(field_number)?;
+            let (field_number, wire_type) = reader.read_tag()?;
             K::try_from_field_number(field_number)?;
 
+            if wire_type != V::WIRE_TYPE {
+                reader.skip_field(wire_type)?;
+                continue;
+            }
+
             if let Some(value) = self.entries.get_mut(&field_number) {
-                value.merge_nested(V::WIRE_TYPE, reader)?;
+                value.merge_nested(wire_type, reader)?;
             } else {
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
-                value.merge_nested(V::WIRE_TYPE, reader)?;
+                value.merge_nested(wire_type, reader)?;
                 self.entries.insert(field_number, value);
             }
         }
-- 
2.43.0


From 148f2dbbf610c0aa966d165643e33b3d99ac7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:13 +0000
Subject: [PATCH 13/33] fix: don't pause the shared logger while building a
 value

Mutations made elsewhere at the same time, in another thread or by the closure
itself, weren't logged, and a panicking closure left the logger paused forever.
---
 steit-derive/src/derive/field.rs |  5 ++---
 steit/src/rt/runtime.rs          | 15 ++++++++++++++-
 steit/src/types/list.rs          |  5 ++---
 steit/src/types/map/map.rs       |  4 +---
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index f2f0bce..1b75364 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -309,9 +309,8 @@ impl<'a> DeriveField<'a> {
                     pub fn #setter_with_name(&mut self, get_value: impl FnOnce(Runtime) -> #ty) -> &mut Self {
                         #reset_variant
                         #declare_runtime
-                        runtime.pause_logger();
-                        let value = get_value(runtime.nested(#tag));
-                        runtime.unpause_logger();
+                        let mut value = get_value(runtime.nested_unlogged(#tag));
+                        value.set_runtime(runtime.nested(#tag));
                         #log_update
                         #set_value
                         self
diff --git a/steit/src/rt/runtime.rs b/steit/src/rt/runtime.rs
index abb68c0..724a914 100644
--- a/steit/src/rt/runtime.rs
+++ b/steit/src/rt/runtime.rs
@@ -8,7 +8,10 @@ use std::{
 use serde::Serialize as JsonSerialize;
 
 use crate::{
-    log::{loggers::BufferLogger, LogEntry, Logger},
+    log::{
+        loggers::{BufferLogger, NoopLogger},
+        LogEntry, Logger,
+    },
     ser::Serialize,
 };
 
@@ -69,6 +72,16 @@ impl Runtime {
         }
     }
 
+    /// Same as [`nested`], except that nothing gets logged, without affecting other runtimes.
+    ///
+    /// [`nested`]: struct.Runtime.html#method.nested
+    pub fn nested_unlogged(&self, field_number: u32) -> Self {
+        Self {
+            logger: Arc::new(Mutex::new(RuntimeLogger::new(NoopLogger::new()))),
+            path: Arc::new(Node::child(&self.path, field_number)),
+        }
+    }
+
     pub fn parent(&self) -> Self {
         Self {
             logger: self.logger.clone(),
diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index 20b02af..dd0d909 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -60,9 +60,8 @@ impl<T: State> List<T> {
     pub fn push_with(&mut self, get_item: impl FnOnce(Runtime) -> T) -> usize {
         let field_number = self.items.len() as u32;
 
-        self.runtime.pause_logger();
-        let item = get_item(self.runtime.nested(field_number));
-        self.runtime.unpause_logger();
+        let mut item = get_item(self.runtime.nested_unlogged(field_number));
+        item.set_runtime(self.runtime.nested(field_number));
 
         self.runtime.log_list_push(&item).unwrap();
         self.items.push(item);
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index f69bc39..5c36b82 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -67,9 +67,7 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn insert_with(&mut self, key: K, get_value: impl FnOnce(Runtime) -> V) -> Option<V> {
         let tag = key.as_field_number();
-        self.runtime.pause_logger();
-        let value = get_value(self.runtime.nested(tag));
-        self.runtime.unpause_logger();
+        let value = get_value(self.runtime.nested_unlogged(tag));
         self.insert(key, value)
     }
 
-- 
2.43.0


From 0079b2608fe0bf3efa2de18f0c08197ef1b848a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 14/33] fix: keep a state as is if replaying an update on it
 fails

It was left reset, with only a part of the new value.
---
 steit-derive/src/derive/enum.rs | 6 ++++--
 steit/src/state.rs              | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index b56da2b..e726ddb 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -417,8 +417,10 @@ impl<'a> Enum<'a> {
                 }
 
                 fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
-                    *self = Self::with_runtime(self.runtime().parent());
-                    self.merge(reader)
+                    let mut value = Self::with_runtime(self.runtime().parent());
+                    value.merge(reader)?;
+                    *self = value;
+                    Ok(())
                 }
 
                 fn handle(
diff --git a/steit/src/state.rs b/steit/src/state.rs
index c04e086..eb67d8f 100644
--- a/steit/src/state.rs
+++ b/steit/src/state.rs
@@ -30,8 +30,10 @@ pub trait State: Serialize + Deserialize {
     }
 
     fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
-        *self = Self::with_runtime(self.runtime().clone());
-        self.merge(reader)
+        let mut value = Self::with_runtime(self.runtime().clone());
+        value.merge(reader)?;
+        *self = value;
+        Ok(())
     }
 
     fn replay(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
-- 
2.43.0


From c9cf30ee7b5d2b95da0fc0a8580e621cab40b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 15/33] Report synchronization operations to a hook with --cfg
 steit_mc

---
 steit/src/rt/logger.rs     |   4 +-
 steit/src/rt/mod.rs        |   2 +
 steit/src/rt/runtime.rs    |   3 +-
 steit/src/rt/size_cache.rs |   4 +-
 steit/src/rt/sync.rs       | 222 +++++++++++++++++++++++++++++++++++++
 5 files changed, 232 insertions(+), 3 deletions(-)
 create mode 100644 steit/src/rt/sync.rs

diff --git a/steit/src/rt/logger.rs b/steit/src/rt/logger.rs
index 4a691fe..ef5c41b 100644
--- a/steit/src/rt/logger.rs
+++ b/steit/src/rt/logger.rs
@@ -1,11 +1,13 @@
 use std::{
     io,
     ops::{Deref, DerefMut},
-    sync::{Arc, Mutex},
+    sync::Arc,
 };
 
 use crate::log::{LogEntry, Logger};
 
+use super::sync::Mutex;
+
 pub type LoggerHandle<T> = Arc<Mutex<RuntimeLogger<T>>>;
 
 pub trait PausableLogger: Logger {
diff --git a/steit/src/rt/mod.rs b/steit/src/rt/mod.rs
index 851a502..1ed94e7 100644
--- a/steit/src/rt/mod.rs
+++ b/steit/src/rt/mod.rs
@@ -2,6 +2,8 @@ mod logger;
 mod node;
 mod runtime;
 mod size_cache;
+#[doc(hidden)]
+pub mod sync;
 
 pub use logger::*;
 pub use node::*;
diff --git a/steit/src/rt/runtime.rs b/steit/src/rt/runtime.rs
index 724a914..5391380 100644
--- a/steit/src/rt/runtime.rs
+++ b/steit/src/rt/runtime.rs
@@ -2,7 +2,7 @@ use std::{
     fmt,
     hash::{Hash, Hasher},
     io,
-    sync::{Arc, Mutex},
+    sync::Arc,
 };
 
 use serde::Serialize as JsonSerialize;
@@ -18,6 +18,7 @@ use crate::{
 use super::{
     logger::{LoggerHandle, PausableLogger, RuntimeLogger},
     node::Node,
+    sync::Mutex,
 };
 
 #[derive(Clone, JsonSerialize)]
diff --git a/steit/src/rt/size_cache.rs b/steit/src/rt/size_cache.rs
index 5ff0222..c785338 100644
--- a/steit/src/rt/size_cache.rs
+++ b/steit/src/rt/size_cache.rs
@@ -1,10 +1,12 @@
 use std::{
     hash::{Hash, Hasher},
-    sync::atomic::{AtomicU32, Ordering},
+    sync::atomic::Ordering,
 };
 
 use serde::Serialize as JsonSerialize;
 
+use super::sync::AtomicU32;
+
 /// Caches serialization size to prevent duplicate calculation.
 ///
 /// A [`SizeCache`] is always equal to itself so its containing object can use `#[derive(Eq)]`.
diff --git a/steit/src/rt/sync.rs b/steit/src/rt/sync.rs
new file mode 100644
index 0000000..43e3329
--- /dev/null
+++ b/steit/src/rt/sync.rs
@@ -0,0 +1,222 @@
+//! Synchronization primitives used by this crate.
+//!
+//! These come from the standard library. When building with `--cfg steit_mc`, they are instead thin
+//! wrappers reporting every operation to a hook, so that a model checker can decide how threads interleave.
+
+#[cfg(not(steit_mc))]
+pub use std::sync::{atomic::AtomicU32, Mutex};
+
+#[cfg(steit_mc)]
+pub use self::mc::*;
+
+#[cfg(steit_mc)]
+mod mc {
+    use std::{
+        ops::{Deref, DerefMut},
+        sync::{
+            self, atomic::Ordering, LockResult, OnceLock, PoisonError, TryLockError, TryLockResult,
+        },
+    };
+
+    /// An operation about to be executed on the given address. [`Op::Locked`] (only after [`Op::TryLock`])
+    /// and [`Op::Unlocked`] are on the other hand reported once they have been executed.
+    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
+    pub enum Op {
+        Lock(usize),
+        TryLock(usize),
+        Locked(usize),
+        Unlocked(usize),
+        Load(usize),
+        Store(usize),
+        ReadModifyWrite(usize),
+    }
+
+    static HOOK: OnceLock<fn(Op)> = OnceLock::new();
+
+    /// Installs the hook, which can only be done once.
+    pub fn install_hook(hook: fn(Op)) {
+        HOOK.set(hook).expect("the hook has been installed");
+    }
+
+    fn report(op: Op) {
+        if let Some(hook) = HOOK.get() {
+            hook(op);
+        }
+    }
+
+    #[derive(Default)]
+    pub struct Mutex<T: ?Sized> {
+        inner: sync::Mutex<T>,
+    }
+
+    pub struct MutexGuard<'a, T: ?Sized> {
+        inner: Option<sync::MutexGuard<'a, T>>,
+        address: usize,
+    }
+
+    impl<T> Mutex<T> {
+        pub fn new(value: T) -> Self {
+            Self {
+                inner: sync::Mutex::new(value),
+            }
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            self.inner.into_inner()
+        }
+    }
+
+    impl<T: ?Sized> Mutex<T> {
+        fn address(&self) -> usize {
+            &self.inner as *const sync::Mutex<T> as *const () as usize
+        }
+
+        pub fn lock(&self) -> LockResult<MutexGuard<T>> {
+            let address = self.address();
+            report(Op::Lock(address));
+
+            let guard = |inner| MutexGuard {
+                inner: Some(inner),
+                address,
+            };
+
+            match self.inner.lock() {
+                Ok(inner) => Ok(guard(inner)),
+                Err(error) => Err(PoisonError::new(guard(error.into_inner()))),
+            }
+        }
+
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<T>> {
+            let address = self.address();
+            report(Op::TryLock(address));
+
+            let guard = |inner| {
+                report(Op::Locked(address));
+
+                MutexGuard {
+                    inner: Some(inner),
+                    address,
+                }
+            };
+
+            match self.inner.try_lock() {
+                Ok(inner) => Ok(guard(inner)),
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+                Err(TryLockError::Poisoned(error)) => Err(TryLockError::Poisoned(
+                    PoisonError::new(guard(error.into_inner())),
+                )),
+            }
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.inner.get_mut()
+        }
+
+        pub fn is_poisoned(&self) -> bool {
+            self.inner.is_poisoned()
+        }
+    }
+
+    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            self.inner.as_ref().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.inner.as_mut().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            self.inner = None;
+            report(Op::Unlocked(self.address));
+        }
+    }
+
+    #[derive(Default, Debug)]
+    pub struct AtomicU32 {
+        inner: sync::atomic::AtomicU32,
+    }
+
+    impl AtomicU32 {
+        pub fn new(value: u32) -> Self {
+            Self {
+                inner: sync::atomic::AtomicU32::new(value),
+            }
+        }
+
+        fn address(&self) -> usize {
+            self as *const Self as usize
+        }
+
+        pub fn load(&self, ordering: Ordering) -> u32 {
+            report(Op::Load(self.address()));
+            self.inner.load(ordering)
+        }
+
+        pub fn store(&self, value: u32, ordering: Ordering) {
+            report(Op::Store(self.address()));
+            self.inner.store(value, ordering);
+        }
+
+        pub fn swap(&self, value: u32, ordering: Ordering) -> u32 {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.swap(value, ordering)
+        }
+
+        pub fn fetch_add(&self, value: u32, ordering: Ordering) -> u32 {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.fetch_add(value, ordering)
+        }
+
+        pub fn fetch_sub(&self, value: u32, ordering: Ordering) -> u32 {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.fetch_sub(value, ordering)
+        }
+
+        pub fn fetch_and(&self, value: u32, ordering: Ordering) -> u32 {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.fetch_and(value, ordering)
+        }
+
+        pub fn fetch_or(&self, value: u32, ordering: Ordering) -> u32 {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.fetch_or(value, ordering)
+        }
+
+        pub fn fetch_max(&self, value: u32, ordering: Ordering) -> u32 {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.fetch_max(value, ordering)
+        }
+
+        pub fn compare_exchange(
+            &self,
+            current: u32,
+            new: u32,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<u32, u32> {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.compare_exchange(current, new, success, failure)
+        }
+
+        pub fn get_mut(&mut self) -> &mut u32 {
+            self.inner.get_mut()
+        }
+
+        pub fn into_inner(self) -> u32 {
+            self.inner.into_inner()
+        }
+    }
+
+    impl serde::Serialize for AtomicU32 {
+        fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+            serializer.serialize_u32(self.load(Ordering::SeqCst))
+        }
+    }
+}
-- 
2.43.0


From fe141f6adf0adf5f1ecab9055756eeae4b086a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 16/33] fix: decode zigzag integers without sign-extending them

---
 steit/src/impls/varint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 5a3b205..958eb08 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -90,8 +90,8 @@ macro_rules! impl_signed_varint {
                 (value << 1) ^ (value >> ((std::mem::size_of::<$type>() << 3) - 1))
             }
 
-            fn decode(value: $type) -> $type {
-                (value >> 1) ^ -(value & 1)
+            fn decode(value: $unsigned_type) -> $type {
+                (value >> 1) as $type ^ -((value & 1) as $type)
             }
 
             fn compute_size(value: &$type) -> u32 {
@@ -114,7 +114,7 @@ macro_rules! impl_signed_varint {
                     &mut self,
                     reader: &mut $crate::de::Reader<impl ::std::io::Read>,
                 ) -> ::std::io::Result<()> {
-                    let encoded = <$unsigned_type>::deserialize(reader)? as $type;
+                    let encoded = <$unsigned_type>::deserialize(reader)?;
                     *self = decode(encoded);
                     Ok(())
                 }
-- 
2.43.0


From 273b00e0a0abc3fb21c3cad1dde95c2bedce16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 17/33] fix: omit boxed default integers like unboxed ones

---
 steit/src/impls/box.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 3d6d5e5..3204aee 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -26,6 +26,10 @@ impl<T: Serialize> Serialize for Box<T> {
     fn size_cache(&self) -> Option<&SizeCache> {
         self.as_ref().size_cache()
     }
+
+    fn is_omissible(&self, size_hint: Option<u32>) -> bool {
+        self.as_ref().is_omissible(size_hint)
+    }
 }
 
 impl<T: Deserialize> Deserialize for Box<T> {
-- 
2.43.0


From bf6fbfef313b1d99cab947df9912e90afc87f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 18/33] Complete the primitives reporting synchronization with
 --cfg steit_mc

---
 steit/src/rt/sync.rs | 72 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/steit/src/rt/sync.rs b/steit/src/rt/sync.rs
index 43e3329..08e8bb3 100644
--- a/steit/src/rt/sync.rs
+++ b/steit/src/rt/sync.rs
@@ -12,6 +12,7 @@ pub use self::mc::*;
 #[cfg(steit_mc)]
 mod mc {
     use std::{
+        fmt,
         ops::{Deref, DerefMut},
         sync::{
             self, atomic::Ordering, LockResult, OnceLock, PoisonError, TryLockError, TryLockResult,
@@ -115,6 +116,28 @@ mod mc {
         pub fn is_poisoned(&self) -> bool {
             self.inner.is_poisoned()
         }
+
+        pub fn clear_poison(&self) {
+            self.inner.clear_poison();
+        }
+    }
+
+    impl<T> From<T> for Mutex<T> {
+        fn from(value: T) -> Self {
+            Self::new(value)
+        }
+    }
+
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
+        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+            self.inner.fmt(f)
+        }
+    }
+
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
+        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+            (**self).fmt(f)
+        }
     }
 
     impl<T: ?Sized> Deref for MutexGuard<'_, T> {
@@ -194,6 +217,49 @@ mod mc {
             self.inner.fetch_max(value, ordering)
         }
 
+        pub fn fetch_min(&self, value: u32, ordering: Ordering) -> u32 {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.fetch_min(value, ordering)
+        }
+
+        pub fn fetch_xor(&self, value: u32, ordering: Ordering) -> u32 {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.fetch_xor(value, ordering)
+        }
+
+        pub fn fetch_nand(&self, value: u32, ordering: Ordering) -> u32 {
+            report(Op::ReadModifyWrite(self.address()));
+            self.inner.fetch_nand(value, ordering)
+        }
+
+        pub fn fetch_update(
+            &self,
+            set_order: Ordering,
+            fetch_order: Ordering,
+            mut f: impl FnMut(u32) -> Option<u32>,
+        ) -> Result<u32, u32> {
+            let mut old = self.load(fetch_order);
+
+            while let Some(new) = f(old) {
+                match self.compare_exchange_weak(old, new, set_order, fetch_order) {
+                    Ok(old) => return Ok(old),
+                    Err(now) => old = now,
+                }
+            }
+
+            Err(old)
+        }
+
+        pub fn compare_exchange_weak(
+            &self,
+            current: u32,
+            new: u32,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<u32, u32> {
+            self.compare_exchange(current, new, success, failure)
+        }
+
         pub fn compare_exchange(
             &self,
             current: u32,
@@ -214,6 +280,12 @@ mod mc {
         }
     }
 
+    impl From<u32> for AtomicU32 {
+        fn from(value: u32) -> Self {
+            Self::new(value)
+        }
+    }
+
     impl serde::Serialize for AtomicU32 {
         fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
             serializer.serialize_u32(self.load(Ordering::SeqCst))
-- 
2.43.0


From cb8c05f490a777526cac83de83fc0b24151f18bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 19/33] fix: describe the key type of Map in its metadata

Fields declared as Map<K, V> are described with both type arguments, but
Map::TYPE, used for a type alias, only had the value type, so that the C#
generator, which drops the first argument, wrote StateMap<>.
---
 steit/src/types/map/map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 5c36b82..9ea813d 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -281,13 +281,16 @@ impl<K: MapKey, V: State> State for Map<K, V> {
     }
 }
 
-impl<K: MapKey, V: State + HasMeta> HasMeta for Map<K, V> {
+impl<K: MapKey + HasMeta, V: State + HasMeta> HasMeta for Map<K, V> {
     const NAME: &'static NameMeta = &NameMeta {
         rust: "Map",
         csharp: Some("StateMap"),
     };
 
-    const TYPE: &'static TypeMeta = &TypeMeta::Ref(Self::NAME, &[FieldTypeMeta::Type(V::TYPE)]);
+    const TYPE: &'static TypeMeta = &TypeMeta::Ref(
+        Self::NAME,
+        &[FieldTypeMeta::Type(K::TYPE), FieldTypeMeta::Type(V::TYPE)],
+    );
 
     const LINK: &'static MetaLink = &MetaLink {
         r#type: Self::TYPE,
-- 
2.43.0


From 94ca7d1af27754243a4140011cdca52918f2582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 20/33] fix: follow links through Box when collecting messages

The link of Box<T> had the type of T, so that visiting it marked T as
visited, and messages used by T were not generated when T was first
reached through a box.
---
 steit/src/impls/box.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 3204aee..889a2d6 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -78,11 +78,7 @@ impl<T: HasMeta> HasMeta for Box<T> {
 
     const TYPE: &'static TypeMeta = T::TYPE;
 
-    const LINK: &'static MetaLink = &MetaLink {
-        r#type: Self::TYPE,
-        msg: None,
-        links: || &[T::LINK],
-    };
+    const LINK: &'static MetaLink = T::LINK;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9ab111104199a9ca3505b3c6f5e7e74d8f164583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 21/33] fix: generate C# for boxed primitives and type
 parameters

A field of type Box<u32> was generated as a nested state, sized, instead
of a varint, and one of type Box<T> as "new T(...)".
---
 steit/src/gen/generators/csharp.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 214652d..b15d66a 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -139,7 +139,7 @@ impl Generator for CSharpGenerator {
 
         // Initiate nested states
         for field in &fields {
-            let init = match field.meta.ty {
+            let init = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => Some(format!(
                     "new {}(this.Path.GetNested({}))",
@@ -244,7 +244,7 @@ impl Generator for CSharpGenerator {
             .indent();
 
         // Return wire types
-        for field in r#struct.fields {
+        for field in &fields {
             let wire_type = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, wire_type)) => match wire_type {
                     WireType::Varint => "WireType.Varint".to_string(),
@@ -259,7 +259,7 @@ impl Generator for CSharpGenerator {
                 ),
             };
 
-            writer.writeln(format!("case {}: return {};", field.tag, wire_type));
+            writer.writeln(format!("case {}: return {};", field.meta.tag, wire_type));
         }
 
         writer
@@ -274,7 +274,7 @@ impl Generator for CSharpGenerator {
 
         // Return nested states
         for field in &fields {
-            let nested = match field.meta.ty {
+            let nested = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => {
                     Some(format!("this.{}", field.upper_camel_case_name))
@@ -300,7 +300,7 @@ impl Generator for CSharpGenerator {
 
         // Replace fields and notify event handlers
         for field in &fields {
-            match field.meta.ty {
+            match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => {
                     writer.writeln(format!(
                         "case {0}: this.{1} = this.MaybeNotify({0}, reader.Read{2}(), this.{1}, On{1}Update, shouldNotify); break;",
@@ -578,6 +578,8 @@ impl Generator for CSharpGenerator {
 
 struct CSharpField {
     meta: &'static FieldMeta,
+    // Type without any `Box` around it
+    ty: &'static FieldTypeMeta,
     // UpperCamelCase
     upper_camel_case_name: String,
     type_name: String,
@@ -587,6 +589,7 @@ impl CSharpField {
     pub fn from_meta(field: &'static FieldMeta) -> Self {
         Self {
             meta: field,
+            ty: unbox(field.ty),
             upper_camel_case_name: field
                 .name
                 .csharp(|name| str_util::to_camel_case(name, true)),
@@ -621,6 +624,13 @@ fn type_params(type_params: &'static [&'static str]) -> String {
     format!("<{}>", type_params.join(", "))
 }
 
+fn unbox(ty: &'static FieldTypeMeta) -> &'static FieldTypeMeta {
+    match ty {
+        FieldTypeMeta::Type(TypeMeta::Ref(NameMeta { rust: "Box", .. }, [ty])) => unbox(ty),
+        _ => ty,
+    }
+}
+
 fn field_type(ty: &'static FieldTypeMeta) -> String {
     match *ty {
         FieldTypeMeta::Type(ty) => match ty {
-- 
2.43.0


From 975f3b531e97ec221016a3beac132fd605e9e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 22/33] fix: bind fields of variants under names which can't
 clash

Variants with fields named e.g. key, kind, path, size, state or reader,
or with both x and other_x, failed to compile, as their bindings clashed
with parameters and variables of the methods generated.
---
 steit-derive/src/derive/field.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index 1b75364..f85fcdf 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -154,12 +154,19 @@ impl Field {
         self.init(name.into_token_stream())
     }
 
+    // What a variant field is bound to must not clash with
+    // function params, local variables and other bindings.
+    fn binding(&self, prefix: impl Into<Option<syn::Ident>>) -> syn::Ident {
+        let prefix = prefix.into().unwrap_or_else(|| format_ident!("self"));
+        self.alias_prefixed(format_ident!("__{}", prefix))
+    }
+
     pub fn destructure_alias(&self) -> TokenStream {
-        self.destructure(self.alias())
+        self.destructure(self.binding(None))
     }
 
     pub fn destructure_alias_prefixed(&self, prefix: impl Into<Option<syn::Ident>>) -> TokenStream {
-        self.destructure(self.alias_prefixed(prefix))
+        self.destructure(self.binding(prefix))
     }
 
     pub fn field_other(
@@ -168,7 +175,7 @@ impl Field {
         is_variant: bool,
     ) -> TokenStream {
         if is_variant {
-            self.alias_prefixed(other).into_token_stream()
+            self.binding(other).into_token_stream()
         } else {
             let other = other
                 .into()
-- 
2.43.0


From 27e93f0912fbd60dc767a1c937e6be44fdfd8964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 23/33] fix: accept raw identifiers as names of types and
 variants

---
 steit-derive/src/derive/derive.rs  | 3 ++-
 steit-derive/src/derive/enum.rs    | 3 ++-
 steit-derive/src/derive/struct.rs  | 7 ++++---
 steit-derive/src/derive/variant.rs | 3 ++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/steit-derive/src/derive/derive.rs b/steit-derive/src/derive/derive.rs
index 60b16c8..0370a73 100644
--- a/steit-derive/src/derive/derive.rs
+++ b/steit-derive/src/derive/derive.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::{
     attr::{Attribute, AttributeParse},
@@ -239,7 +240,7 @@ fn to_compile_errors(errors: Vec<syn::Error>) -> TokenStream {
 fn wrap_in_const(setting: &DeriveSetting, name: &syn::Ident, tokens: TokenStream) -> TokenStream {
     let dummy_const = format_ident!(
         "_IMPL_STEIT_FOR_{}",
-        str_util::to_snake_case(name.to_string()).to_uppercase(),
+        str_util::to_snake_case(name.unraw().to_string()).to_uppercase(),
     );
 
     let extern_crate = setting.extern_crate();
diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index e726ddb..e37b42a 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::TokenStream;
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::{
     attr::{Attribute, AttributeParse, VecAttribute},
@@ -455,7 +456,7 @@ impl<'a> Enum<'a> {
     }
 
     fn impl_meta(&self) -> TokenStream {
-        let rust_name = self.impler.name().to_string();
+        let rust_name = self.impler.name().unraw().to_string();
 
         let csharp_name = match &self.attrs.csharp_name {
             Some(csharp_name) => quote!(Some(#csharp_name)),
diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index d7e6297..d843c77 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::TokenStream;
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::{
     attr::{Attribute, AttributeParse, VecAttribute},
@@ -477,8 +478,8 @@ impl<'a> Struct<'a> {
 
     pub fn meta(&self) -> TokenStream {
         let rust_name = match &self.variant {
-            Some(variant) => variant.name().to_string(),
-            None => self.impler.name().to_string(),
+            Some(variant) => variant.name().unraw().to_string(),
+            None => self.impler.name().unraw().to_string(),
         };
 
         let csharp_name = match &self.attrs.csharp_name {
@@ -524,7 +525,7 @@ impl<'a> Struct<'a> {
 
     fn impl_meta(&self) -> TokenStream {
         let meta = self.meta();
-        let rust_name = self.impler.name().to_string();
+        let rust_name = self.impler.name().unraw().to_string();
 
         let csharp_name = match &self.attrs.csharp_name {
             Some(csharp_name) => quote!(Some(#csharp_name)),
diff --git a/steit-derive/src/derive/variant.rs b/steit-derive/src/derive/variant.rs
index 61a08fc..8bdf5ae 100644
--- a/steit-derive/src/derive/variant.rs
+++ b/steit-derive/src/derive/variant.rs
@@ -1,4 +1,5 @@
 use proc_macro2::TokenStream;
+use syn::ext::IdentExt;
 
 use crate::{
     attr::{Attribute, AttributeParse},
@@ -74,7 +75,7 @@ impl<'a> Variant<'a> {
     }
 
     pub fn snake_case_name(&self) -> String {
-        str_util::to_snake_case(self.name.to_string())
+        str_util::to_snake_case(self.name.unraw().to_string())
     }
 
     pub fn qual(&self) -> TokenStream {
-- 
2.43.0


From 8dbef19dbc40bcfd644bc90ce90150648aea65b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 24/33] fix: derive Hash for types with a type parameter named
 H

---
 steit-derive/src/derive/enum.rs   | 2 +-
 steit-derive/src/derive/struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index e37b42a..0436147 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -201,7 +201,7 @@ impl<'a> Enum<'a> {
         self.impler.impl_for(
             "Hash",
             quote! {
-                fn hash<H: Hasher>(&self, state: &mut H) {
+                fn hash<__H: Hasher>(&self, state: &mut __H) {
                     match self { #(#hashers)* }
                 }
             },
diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index d843c77..75f897f 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -293,7 +293,7 @@ impl<'a> Struct<'a> {
         self.impler.impl_for(
             "Hash",
             quote! {
-                fn hash<H: Hasher>(&self, state: &mut H) {
+                fn hash<__H: Hasher>(&self, state: &mut __H) {
                     #hasher
                 }
             },
-- 
2.43.0


From 1c11d3a82004f3495f88d38334767a4af7b318df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 25/33] fix: derive the constructor which Default needs

---
 steit-derive/src/derive/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit-derive/src/derive/derive.rs b/steit-derive/src/derive/derive.rs
index 0370a73..db918fe 100644
--- a/steit-derive/src/derive/derive.rs
+++ b/steit-derive/src/derive/derive.rs
@@ -113,7 +113,7 @@ impl DeriveSetting {
         let has_size_cache = derive_serialize && !no_size_cache.get().unwrap_or_default();
         let has_runtime = derive_state;
 
-        let derive_ctors = derive_deserialize || derive_ctors.get().unwrap_or_default();
+        let derive_ctors = derive_default || derive_ctors.get().unwrap_or_default();
         let derive_setters = derive_state || derive_setters.get().unwrap_or_default();
         let derive_wire_type = derive_serialize || derive_deserialize;
         let derive_meta = derive_deserialize && !no_meta.get().unwrap_or_default();
-- 
2.43.0


From e7c8a66fa79f182b254ee4b6ffaeed61bca74d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 26/33] fix: describe types of fields passed to a macro

---
 steit-derive/src/derive/field.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index f85fcdf..2244fb1 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -461,7 +461,9 @@ fn field_type_meta(
     };
 
     match ty {
-        syn::Type::Paren(syn::TypeParen { elem, .. })
+        // Types passed to a macro come in invisible groups.
+        syn::Type::Group(syn::TypeGroup { elem, .. })
+        | syn::Type::Paren(syn::TypeParen { elem, .. })
         | syn::Type::Reference(syn::TypeReference { elem, .. }) => {
             field_type_meta(&ctx, &*elem, type_params)
         }
-- 
2.43.0


From 27f9917c8d0716b6baa3188d2410e6f7e02aa53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 27/33] fix: derive the constructors which setters of an enum
 need

---
 steit-derive/src/derive/enum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index 0436147..b1d9f3d 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -579,7 +579,8 @@ fn parse_variants<'a>(
 
 impl<'a> ToTokens for Enum<'a> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
-        if self.setting.derive_ctors {
+        // Setters use constructors to switch variants.
+        if self.setting.derive_ctors || self.setting.derive_setters {
             tokens.extend(self.impl_ctors());
         }
 
-- 
2.43.0


From 3dd5c63d4d6481573a1197f0c76bff0bba89b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 28/33] fix: let names of types differ in case only

---
 steit-derive/src/derive/derive.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/steit-derive/src/derive/derive.rs b/steit-derive/src/derive/derive.rs
index db918fe..193caee 100644
--- a/steit-derive/src/derive/derive.rs
+++ b/steit-derive/src/derive/derive.rs
@@ -1,12 +1,10 @@
 use proc_macro2::TokenStream;
 use quote::ToTokens;
-use syn::ext::IdentExt;
 
 use crate::{
     attr::{Attribute, AttributeParse},
     ctx::Context,
     r#impl::Implementer,
-    str_util,
 };
 
 use super::{r#enum::Enum, r#struct::Struct};
@@ -201,7 +199,7 @@ pub fn derive(args: syn::AttributeArgs, mut input: syn::DeriveInput) -> TokenStr
         }
     };
 
-    let output = wrap_in_const(&setting, &input.ident, output);
+    let output = wrap_in_const(&setting, output);
     let derives = setting.derives;
     let errors = ctx.check().err().map(to_compile_errors);
 
@@ -237,17 +235,12 @@ fn to_compile_errors(errors: Vec<syn::Error>) -> TokenStream {
     quote!(#(#compile_errors)*)
 }
 
-fn wrap_in_const(setting: &DeriveSetting, name: &syn::Ident, tokens: TokenStream) -> TokenStream {
-    let dummy_const = format_ident!(
-        "_IMPL_STEIT_FOR_{}",
-        str_util::to_snake_case(name.unraw().to_string()).to_uppercase(),
-    );
-
+fn wrap_in_const(setting: &DeriveSetting, tokens: TokenStream) -> TokenStream {
     let extern_crate = setting.extern_crate();
     let krate = setting.krate();
 
     quote! {
-        const #dummy_const: () = {
+        const _: () = {
             #extern_crate
 
             use std::{
-- 
2.43.0


From d6cab6d7c591b61beb109185bfd5fa1dec6e8a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 29/33] fix: let types be named like keywords of C#

A type such as Switch or Event has been generated with a local variable
named by a keyword, and one named Reader with one like a parameter.
---
 steit/src/gen/generators/csharp.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index b15d66a..5b2656c 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -75,7 +75,7 @@ impl Generator for CSharpGenerator {
         writer: &mut Writer,
     ) {
         let name = r#struct.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
+        let var_name = local_name(&name);
 
         let type_name = if !is_variant {
             format!("{}{}", &name, type_params(r#struct.type_params))
@@ -373,7 +373,7 @@ impl Generator for CSharpGenerator {
 
     fn gen_enum(&self, r#enum: &EnumMeta, setting: &Self::Setting, writer: &mut Writer) {
         let name = r#enum.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
+        let var_name = local_name(&name);
         let type_name = format!("{}{}", &name, type_params(r#enum.type_params));
 
         let variants: Vec<_> = r#enum
@@ -616,6 +616,32 @@ impl CSharpVariant {
     }
 }
 
+// Names of parameters in generated methods
+const PARAMS: &[&str] = &["path", "reader"];
+
+#[rustfmt::skip]
+const KEYWORDS: &[&str] = &[
+    "abstract", "as", "base", "bool", "break", "byte", "case", "catch", "char", "checked", "class",
+    "const", "continue", "decimal", "default", "delegate", "do", "double", "else", "enum", "event",
+    "explicit", "extern", "false", "finally", "fixed", "float", "for", "foreach", "goto", "if",
+    "implicit", "in", "int", "interface", "internal", "is", "lock", "long", "namespace", "new",
+    "null", "object", "operator", "out", "override", "params", "private", "protected", "public",
+    "readonly", "ref", "return", "sbyte", "sealed", "short", "sizeof", "stackalloc", "static",
+    "string", "struct", "switch", "this", "throw", "true", "try", "typeof", "uint", "ulong",
+    "unchecked", "unsafe", "ushort", "using", "virtual", "void", "volatile", "while",
+];
+
+// Names a local variable after a type, next to parameters and keywords.
+fn local_name(type_name: &str) -> String {
+    let name = str_util::uncap_first_char(type_name);
+
+    if KEYWORDS.contains(&&*name) || PARAMS.contains(&&*name) {
+        format!("{}_", name)
+    } else {
+        name
+    }
+}
+
 fn type_params(type_params: &'static [&'static str]) -> String {
     if type_params.is_empty() {
         return "".to_string();
-- 
2.43.0


From 2e1a5c570f978d52a4602d537fdf5adf58747b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 30/33] fix: let fields of a type parameter hold lists and maps
 in C#

StateFactory.Construct() looks up a constructor taking a path only, which
collections lacked, so decoding Maybe<List<..>> has thrown.
---
 steit-csharp/src/Builtins/Bytes.cs        | 4 ++++
 steit-csharp/src/Collections/StateList.cs | 4 ++++
 steit-csharp/src/Collections/StateMap.cs  | 4 ++++
 steit-csharp/src/Collections/Vector.cs    | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/steit-csharp/src/Builtins/Bytes.cs b/steit-csharp/src/Builtins/Bytes.cs
index d120867..6535f26 100644
--- a/steit-csharp/src/Builtins/Bytes.cs
+++ b/steit-csharp/src/Builtins/Bytes.cs
@@ -8,6 +8,10 @@ namespace Steit.Builtins {
     public sealed partial class Bytes : ReadOnlyCollection<Byte>, IState {
         public Path Path { get; }
 
+        // This is the constructor which `StateFactory.Construct()` looks up.
+        // public Bytes(Path? path) : this(path, null) { }
+        public Bytes(Path path) : this(path, null) { }
+
         // public Bytes(Path? path = null, byte[]? bytes = null) : base(bytes ?? new byte[0]) {
         public Bytes(Path path = null, byte[] bytes = null) : base(bytes ?? new byte[0]) {
             this.Path = path ?? Path.Root;
diff --git a/steit-csharp/src/Collections/StateList.cs b/steit-csharp/src/Collections/StateList.cs
index ccef903..e004227 100644
--- a/steit-csharp/src/Collections/StateList.cs
+++ b/steit-csharp/src/Collections/StateList.cs
@@ -10,6 +10,10 @@ namespace Steit.Collections {
     public sealed partial class StateList<T> : ReadOnlyCollection<T>, IState {
         public Path Path { get; }
 
+        // This is the constructor which `StateFactory.Construct()` looks up.
+        // public StateList(Path? path) : this(path, null) { }
+        public StateList(Path path) : this(path, null) { }
+
         // public StateList(Path? path = null, IList<T>? items = null) : base(items ?? new List<T>()) {
         public StateList(Path path = null, IList<T> items = null) : base(items ?? new List<T>()) {
             StateFactory.ValidateType(typeof(T));
diff --git a/steit-csharp/src/Collections/StateMap.cs b/steit-csharp/src/Collections/StateMap.cs
index c14223a..502f386 100644
--- a/steit-csharp/src/Collections/StateMap.cs
+++ b/steit-csharp/src/Collections/StateMap.cs
@@ -10,6 +10,10 @@ namespace Steit.Collections {
     public sealed partial class StateMap<T> : ReadOnlyDictionary<UInt32, T>, IState {
         public Path Path { get; }
 
+        // This is the constructor which `StateFactory.Construct()` looks up.
+        // public StateMap(Path? path) : this(path, null) { }
+        public StateMap(Path path) : this(path, null) { }
+
         // public StateMap(Path? path = null, IDictionary<UInt32, T>? items = null) : base(items ?? new Dictionary<UInt32, T>()) {
         public StateMap(Path path = null, IDictionary<UInt32, T> items = null) : base(items ?? new Dictionary<UInt32, T>()) {
             StateFactory.ValidateType(typeof(T));
diff --git a/steit-csharp/src/Collections/Vector.cs b/steit-csharp/src/Collections/Vector.cs
index e3dc086..5599885 100644
--- a/steit-csharp/src/Collections/Vector.cs
+++ b/steit-csharp/src/Collections/Vector.cs
@@ -9,6 +9,10 @@ namespace Steit.Collections {
     public sealed partial class Vector<T> : ReadOnlyCollection<T>, IState {
         public Path Path { get; }
 
+        // This is the constructor which `StateFactory.Construct()` looks up.
+        // public Vector(Path? path) : this(path, null) { }
+        public Vector(Path path) : this(path, null) { }
+
         // public Vector(Path? path = null, IList<T>? items = null) : base(items ?? new List<T>()) {
         public Vector(Path path = null, IList<T> items = null) : base(items ?? new List<T>()) {
             StateFactory.ValidateType(typeof(T));
-- 
2.43.0


From 26e6225a2727f19d309b7c88e97405b8f2e7170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 31/33] fix: decode an Option of a state without a path in C#

Option.Deserialize() has thrown a NullReferenceException unless given a
path, which is optional as it is everywhere else.
---
 steit-csharp/src/Builtins/Option.cs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/steit-csharp/src/Builtins/Option.cs b/steit-csharp/src/Builtins/Option.cs
index d3d34e6..210ba52 100644
--- a/steit-csharp/src/Builtins/Option.cs
+++ b/steit-csharp/src/Builtins/Option.cs
@@ -30,6 +30,8 @@ namespace Steit.Builtins {
         }
 
         public static Option<T> Deserialize(IReader reader, Path path = null) {
+            path = path ?? Path.Root;
+
             if (!reader.EndOfStream()) {
                 return Some(path, StateFactory.DeserializeNested<T>(reader, path, 0));
             } else {
-- 
2.43.0


From cea023b5f8b825a5f1341035c68f57633ce6bddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 32/33] fix: read large 64-bit signed integers in C#

Shifting the varint arithmetically has given -1 for the largest one.
---
 steit-csharp/src/Codec/Reader.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit-csharp/src/Codec/Reader.cs b/steit-csharp/src/Codec/Reader.cs
index d068dab..2b0e87a 100644
--- a/steit-csharp/src/Codec/Reader.cs
+++ b/steit-csharp/src/Codec/Reader.cs
@@ -38,8 +38,8 @@ namespace Steit.Codec {
         }
 
         public static long ReadSignedVarint(this IReader reader) {
-            long value = (long) reader.ReadUnsignedVarint();
-            return (value >> 1) ^ -(value & 1);
+            ulong value = reader.ReadUnsignedVarint();
+            return (long) (value >> 1) ^ -(long) (value & 1);
         }
 
         public static Byte ReadByte(this IReader reader) { return (Byte) reader.ReadUnsignedVarint(); }
-- 
2.43.0


From efddba55483c81b41f6ecefd7757f4896dbf2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 33/33] fix: let types be named like what derived code uses

Names of steit's and std's, e.g. State, Runtime, Reader or Hash, used to be
imported next to derived code and hid types of those names.
---
 steit-derive/src/derive/derive.rs | 30 +++++++----
 steit-derive/src/derive/enum.rs   | 88 +++++++++++++++----------------
 steit-derive/src/derive/field.rs  | 26 ++++-----
 steit-derive/src/derive/struct.rs | 84 ++++++++++++++---------------
 4 files changed, 120 insertions(+), 108 deletions(-)

diff --git a/steit-derive/src/derive/derive.rs b/steit-derive/src/derive/derive.rs
index 193caee..9cb7080 100644
--- a/steit-derive/src/derive/derive.rs
+++ b/steit-derive/src/derive/derive.rs
@@ -243,19 +243,31 @@ fn wrap_in_const(setting: &DeriveSetting, tokens: TokenStream) -> TokenStream {
         const _: () = {
             #extern_crate
 
+            // Aliases keep out of the way of types a user may have defined.
             use std::{
-                hash::{Hash, Hasher},
-                io::{self, Read},
+                cmp::PartialEq as __PartialEq,
+                default::Default as __Default,
+                hash::{Hash as __Hash, Hasher as __Hasher},
+                io::{self as __io, Read as _},
+                iter::Iterator as __Iterator,
+                ops::FnOnce as __FnOnce,
+                option::Option as __Option,
             };
 
             use #krate::{
-                de::{Deserialize, Reader},
-                log::LogEntryKind,
-                meta::*,
-                rt::{Runtime, SizeCache},
-                ser::Serialize,
-                state::State,
-                wire_fmt::{HasWireType, WireType},
+                de::{Deserialize as __Deserialize, Reader as __Reader},
+                log::LogEntryKind as __LogEntryKind,
+                meta::{
+                    EnumMeta as __EnumMeta, FieldMeta as __FieldMeta,
+                    FieldTypeMeta as __FieldTypeMeta, HasMeta as __HasMeta,
+                    MessageMeta as __MessageMeta, MetaLink as __MetaLink, NameMeta as __NameMeta,
+                    StructMeta as __StructMeta, TypeMeta as __TypeMeta,
+                    VariantMeta as __VariantMeta,
+                },
+                rt::{Runtime as __Runtime, SizeCache as __SizeCache},
+                ser::Serialize as __Serialize,
+                state::State as __State,
+                wire_fmt::{HasWireType as __HasWireType, WireType as __WireType},
             };
 
             #tokens
diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index b1d9f3d..7da7e0c 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -84,7 +84,7 @@ impl<'a> Enum<'a> {
 
     fn trait_bounds(&self, fallback: &'static [&str]) -> &[&str] {
         if self.setting.derive_state {
-            &["State"]
+            &["__State"]
         } else {
             fallback
         }
@@ -94,7 +94,7 @@ impl<'a> Enum<'a> {
         let default_ctor_name = format_ident!("{}", &self.setting.ctor_prefix);
 
         let (default_ctor_params, default_ctor_args) = if self.setting.derive_state {
-            (Some(quote!(runtime: Runtime)), Some(quote!(runtime)))
+            (Some(quote!(runtime: __Runtime)), Some(quote!(runtime)))
         } else {
             Default::default()
         };
@@ -109,7 +109,7 @@ impl<'a> Enum<'a> {
         let ctors = self.variants.iter().map(|r#struct| r#struct.ctor());
 
         self.impler.impl_with(
-            self.trait_bounds(&["Default"]),
+            self.trait_bounds(&["__Default"]),
             quote! {
                 pub fn #default_ctor_name(#default_ctor_params) -> Self {
                     #default_ctor
@@ -124,7 +124,7 @@ impl<'a> Enum<'a> {
         let setters = self.variants.iter().map(|r#struct| r#struct.setters());
 
         self.impler
-            .impl_with(self.trait_bounds(&["Default"]), quote!(#(#setters)*))
+            .impl_with(self.trait_bounds(&["__Default"]), quote!(#(#setters)*))
     }
 
     fn impl_partial_eq(&self) -> TokenStream {
@@ -150,7 +150,7 @@ impl<'a> Enum<'a> {
         });
 
         self.impler.impl_for(
-            "PartialEq",
+            "__PartialEq",
             quote! {
                 fn eq(&self, other: &Self) -> bool {
                     match self { #(#eqs,)* }
@@ -163,14 +163,14 @@ impl<'a> Enum<'a> {
         let ctor_name = format_ident!("{}", &self.setting.ctor_prefix);
 
         let args = if self.setting.derive_state {
-            Some(quote!(Runtime::default()))
+            Some(quote!(__Runtime::default()))
         } else {
             None
         };
 
         self.impler.impl_for_with(
-            "Default",
-            self.trait_bounds(&["Default"]),
+            "__Default",
+            self.trait_bounds(&["__Default"]),
             quote! {
                 fn default() -> Self {
                     Self::#ctor_name(#args)
@@ -199,9 +199,9 @@ impl<'a> Enum<'a> {
         });
 
         self.impler.impl_for(
-            "Hash",
+            "__Hash",
             quote! {
-                fn hash<__H: Hasher>(&self, state: &mut __H) {
+                fn hash<__H: __Hasher>(&self, state: &mut __H) {
                     match self { #(#hashers)* }
                 }
             },
@@ -210,10 +210,10 @@ impl<'a> Enum<'a> {
 
     fn impl_wire_type(&self) -> TokenStream {
         self.impler.impl_for_with(
-            "HasWireType",
+            "__HasWireType",
             &[],
             quote! {
-                const WIRE_TYPE: WireType = WireType::Sized;
+                const WIRE_TYPE: __WireType = __WireType::Sized;
             },
         )
     }
@@ -266,7 +266,7 @@ impl<'a> Enum<'a> {
         });
 
         self.impler.impl_for(
-            "Serialize",
+            "__Serialize",
             quote! {
                 fn compute_size(&self) -> u32 {
                     let mut size = 0;
@@ -274,12 +274,12 @@ impl<'a> Enum<'a> {
                     size
                 }
 
-                fn serialize_cached(&self, writer: &mut impl io::Write) -> io::Result<()> {
+                fn serialize_cached(&self, writer: &mut impl __io::Write) -> __io::Result<()> {
                     match self { #(#serializers)* }
                     Ok(())
                 }
 
-                fn size_cache(&self) -> Option<&SizeCache> {
+                fn size_cache(&self) -> __Option<&__SizeCache> {
                     match self { #(#size_caches,)* }
                 }
             },
@@ -319,18 +319,18 @@ impl<'a> Enum<'a> {
         });
 
         self.impler.impl_for_with(
-            "Deserialize",
-            self.trait_bounds(&["Deserialize"]),
+            "__Deserialize",
+            self.trait_bounds(&["__Deserialize"]),
             quote! {
-                fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+                fn merge(&mut self, reader: &mut __Reader<impl __io::Read>) -> __io::Result<()> {
                     let tag = u32::deserialize(reader)?;
 
                     match tag {
                         #(#mergers)*
 
                         _ => {
-                            return Err(io::Error::new(
-                                io::ErrorKind::InvalidData,
+                            return Err(__io::Error::new(
+                                __io::ErrorKind::InvalidData,
                                 format!("unknown variant tag {}", tag),
                             ));
                         }
@@ -389,8 +389,8 @@ impl<'a> Enum<'a> {
                     if let #name #qual { #destructure .. } = self {
                         #replayer
                     } else {
-                        Err(io::Error::new(
-                            io::ErrorKind::InvalidData,
+                        Err(__io::Error::new(
+                            __io::ErrorKind::InvalidData,
                             format!("expected variant with tag {}, got another", tag),
                         ))
                     }
@@ -399,17 +399,17 @@ impl<'a> Enum<'a> {
         });
 
         self.impler.impl_for(
-            "State",
+            "__State",
             quote! {
-                fn with_runtime(runtime: Runtime) -> Self {
+                fn with_runtime(runtime: __Runtime) -> Self {
                     Self::#ctor_name(runtime)
                 }
 
-                fn runtime(&self) -> &Runtime {
+                fn runtime(&self) -> &__Runtime {
                     match self { #(#runtimes,)* }
                 }
 
-                fn set_runtime(&mut self, runtime: Runtime) {
+                fn set_runtime(&mut self, runtime: __Runtime) {
                     match self { #(#runtime_setters)* }
                 }
 
@@ -417,7 +417,7 @@ impl<'a> Enum<'a> {
                     self.runtime().parent().is_root()
                 }
 
-                fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+                fn handle_update(&mut self, reader: &mut __Reader<impl __io::Read>) -> __io::Result<()> {
                     let mut value = Self::with_runtime(self.runtime().parent());
                     value.merge(reader)?;
                     *self = value;
@@ -426,26 +426,26 @@ impl<'a> Enum<'a> {
 
                 fn handle(
                     &mut self,
-                    mut path: impl Iterator<Item = u32>,
-                    kind: LogEntryKind,
-                    key: Option<u32>,
-                    reader: &mut Reader<impl io::Read>,
-                ) -> io::Result<()> {
+                    mut path: impl __Iterator<Item = u32>,
+                    kind: __LogEntryKind,
+                    key: __Option<u32>,
+                    reader: &mut __Reader<impl __io::Read>,
+                ) -> __io::Result<()> {
                     if let Some(tag) = path.next() {
                         match tag {
                             #(#replayers,)*
 
-                            _ => Err(io::Error::new(
-                                io::ErrorKind::InvalidData,
+                            _ => Err(__io::Error::new(
+                                __io::ErrorKind::InvalidData,
                                 format!("unexpected variant tag {}", tag),
                             )),
                         }
                     } else {
                         match kind {
-                            LogEntryKind::Update => self.handle_update(reader),
+                            __LogEntryKind::Update => self.handle_update(reader),
 
-                            _ => Err(io::Error::new(
-                                io::ErrorKind::InvalidData,
+                            _ => Err(__io::Error::new(
+                                __io::ErrorKind::InvalidData,
                                 format!("{:?} is not supported on `{}`", kind, stringify!(#name)),
                             )),
                         }
@@ -472,7 +472,7 @@ impl<'a> Enum<'a> {
             let meta = r#struct.meta();
 
             quote! {
-                VariantMeta {
+                __VariantMeta {
                     ty: #meta,
                     tag: #tag,
                 }
@@ -481,7 +481,7 @@ impl<'a> Enum<'a> {
 
         let param_meta_list = self.type_params.iter().map(|param| {
             let name = &param.ident;
-            quote!(FieldTypeMeta::Type(#name::TYPE))
+            quote!(__FieldTypeMeta::Type(#name::TYPE))
         });
 
         let type_params = self.type_params.iter().map(|type_param| {
@@ -492,18 +492,18 @@ impl<'a> Enum<'a> {
         let links = self.variants.iter().map(|r#struct| r#struct.meta_links());
 
         self.impler.impl_for(
-            "HasMeta",
+            "__HasMeta",
             quote! {
-                const NAME: &'static NameMeta = &NameMeta {
+                const NAME: &'static __NameMeta = &__NameMeta {
                     rust: #rust_name,
                     csharp: #csharp_name,
                 };
 
-                const TYPE: &'static TypeMeta = &TypeMeta::Ref(Self::NAME, &[#(#param_meta_list,)*]);
+                const TYPE: &'static __TypeMeta = &__TypeMeta::Ref(Self::NAME, &[#(#param_meta_list,)*]);
 
-                const LINK: &'static MetaLink = &MetaLink {
+                const LINK: &'static __MetaLink = &__MetaLink {
                     r#type: Self::TYPE,
-                    msg: Some(MessageMeta::Enum(EnumMeta {
+                    msg: Some(__MessageMeta::Enum(__EnumMeta {
                         name: Self::NAME,
                         type_params: &[#(#type_params,)*],
                         variants: &[#(#variants,)*],
diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index 2244fb1..1716fa6 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -245,9 +245,9 @@ impl<'a> DeriveField<'a> {
     pub fn init_default(&self) -> TokenStream {
         self.init(if self.is_state() {
             let tag = self.tag();
-            quote!(State::with_runtime(runtime.nested(#tag)))
+            quote!(__State::with_runtime(runtime.nested(#tag)))
         } else {
-            quote!(Default::default())
+            quote!(__Default::default())
         })
     }
 
@@ -313,7 +313,7 @@ impl<'a> DeriveField<'a> {
                     }
                 },
                 Some(quote! {
-                    pub fn #setter_with_name(&mut self, get_value: impl FnOnce(Runtime) -> #ty) -> &mut Self {
+                    pub fn #setter_with_name(&mut self, get_value: impl __FnOnce(__Runtime) -> #ty) -> &mut Self {
                         #reset_variant
                         #declare_runtime
                         let mut value = get_value(runtime.nested_unlogged(#tag));
@@ -418,8 +418,8 @@ impl<'a> DeriveField<'a> {
         let tag = self.tag();
 
         quote! {
-            FieldMeta {
-                name: &NameMeta {
+            __FieldMeta {
+                name: &__NameMeta {
                     rust: #rust_name,
                     csharp: #csharp_name,
                 },
@@ -472,13 +472,13 @@ fn field_type_meta(
             let elem_type_name = elem.to_token_stream().to_string();
 
             let elem_meta = if is_type_param(&elem_type_name) {
-                quote!(FieldTypeMeta::TypeParam(#elem_type_name))
+                quote!(__FieldTypeMeta::TypeParam(#elem_type_name))
             } else {
                 field_type_meta(ctx, elem, type_params)?
             };
 
-            Ok(quote!(FieldTypeMeta::Type(&TypeMeta::Ref(
-                <[i8; 1] as HasMeta>::NAME,
+            Ok(quote!(__FieldTypeMeta::Type(&__TypeMeta::Ref(
+                <[i8; 1] as __HasMeta>::NAME,
                 &[#elem_meta],
             ))))
         }
@@ -495,12 +495,12 @@ fn field_type_meta(
                         let type_name = type_name.to_string();
 
                         if is_type_param(&type_name) {
-                            return Ok(quote!(FieldTypeMeta::TypeParam(#type_name)));
+                            return Ok(quote!(__FieldTypeMeta::TypeParam(#type_name)));
                         }
                     }
 
                     // This has primitive types covered.
-                    Ok(quote!(FieldTypeMeta::Type(<#path as HasMeta>::TYPE)))
+                    Ok(quote!(__FieldTypeMeta::Type(<#path as __HasMeta>::TYPE)))
                 }
 
                 syn::PathArguments::AngleBracketed(args) => {
@@ -514,7 +514,7 @@ fn field_type_meta(
                                 let type_name = ty.to_token_stream().to_string();
 
                                 let arg_meta = if is_type_param(&type_name) {
-                                    quote!(FieldTypeMeta::TypeParam(#type_name))
+                                    quote!(__FieldTypeMeta::TypeParam(#type_name))
                                 } else {
                                     field_type_meta(ctx, ty, type_params)?
                                 };
@@ -531,8 +531,8 @@ fn field_type_meta(
                         }
                     }
 
-                    Ok(quote!(FieldTypeMeta::Type(&TypeMeta::Ref(
-                        <#path as HasMeta>::NAME,
+                    Ok(quote!(__FieldTypeMeta::Type(&__TypeMeta::Ref(
+                        <#path as __HasMeta>::NAME,
                         &[#(#arg_meta_list,)*],
                     ))))
                 }
diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index 75f897f..2ebd191 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -160,7 +160,7 @@ impl<'a> Struct<'a> {
 
     fn trait_bounds(&self, fallback: &'static [&str]) -> &[&str] {
         if self.setting.derive_state {
-            &["State"]
+            &["__State"]
         } else {
             fallback
         }
@@ -191,14 +191,14 @@ impl<'a> Struct<'a> {
         let mut inits: Vec<_> = map_fields!(self, _.init_default()).collect();
 
         if let Some(size_cache) = self.size_cache() {
-            inits.push(size_cache.init(quote!(SizeCache::new())));
+            inits.push(size_cache.init(quote!(__SizeCache::new())));
         }
 
         let (params, set_variant_runtime) = if let Some(runtime) = self.runtime() {
             inits.push(runtime.init(quote!(runtime)));
 
             (
-                Some(quote!(runtime: Runtime)),
+                Some(quote!(runtime: __Runtime)),
                 self.variant().map(|variant| {
                     let tag = variant.tag();
                     quote! { let runtime = runtime.nested(#tag); }
@@ -218,7 +218,7 @@ impl<'a> Struct<'a> {
 
     fn impl_ctor(&self) -> TokenStream {
         self.impler
-            .impl_with(self.trait_bounds(&["Default"]), self.ctor())
+            .impl_with(self.trait_bounds(&["__Default"]), self.ctor())
     }
 
     pub fn setters(&self) -> TokenStream {
@@ -230,7 +230,7 @@ impl<'a> Struct<'a> {
     fn impl_setters(&self) -> TokenStream {
         self.impler.impl_with(
             self.trait_bounds(if self.variant.is_some() {
-                &["Default"]
+                &["__Default"]
             } else {
                 &[]
             }),
@@ -252,7 +252,7 @@ impl<'a> Struct<'a> {
         let eq = self.eq();
 
         self.impler.impl_for(
-            "PartialEq",
+            "__PartialEq",
             quote! {
                 fn eq(&self, other: &Self) -> bool {
                     #eq
@@ -265,14 +265,14 @@ impl<'a> Struct<'a> {
         let ctor_name = self.ctor_name();
 
         let args = if self.setting.derive_state {
-            Some(quote!(Runtime::default()))
+            Some(quote!(__Runtime::default()))
         } else {
             None
         };
 
         self.impler.impl_for_with(
-            "Default",
-            self.trait_bounds(&["Default"]),
+            "__Default",
+            self.trait_bounds(&["__Default"]),
             quote! {
                 fn default() -> Self {
                     Self::#ctor_name(#args)
@@ -291,9 +291,9 @@ impl<'a> Struct<'a> {
         let hasher = self.hasher();
 
         self.impler.impl_for(
-            "Hash",
+            "__Hash",
             quote! {
-                fn hash<__H: Hasher>(&self, state: &mut __H) {
+                fn hash<__H: __Hasher>(&self, state: &mut __H) {
                     #hasher
                 }
             },
@@ -302,10 +302,10 @@ impl<'a> Struct<'a> {
 
     fn impl_wire_type(&self) -> TokenStream {
         self.impler.impl_for_with(
-            "HasWireType",
+            "__HasWireType",
             &[],
             quote! {
-                const WIRE_TYPE: WireType = WireType::Sized;
+                const WIRE_TYPE: __WireType = __WireType::Sized;
             },
         )
     }
@@ -334,7 +334,7 @@ impl<'a> Struct<'a> {
         };
 
         self.impler.impl_for(
-            "Serialize",
+            "__Serialize",
             quote! {
                 fn compute_size(&self) -> u32 {
                     let mut size = 0;
@@ -342,12 +342,12 @@ impl<'a> Struct<'a> {
                     size
                 }
 
-                fn serialize_cached(&self, writer: &mut impl io::Write) -> io::Result<()> {
+                fn serialize_cached(&self, writer: &mut impl __io::Write) -> __io::Result<()> {
                     #serializer
                     Ok(())
                 }
 
-                fn size_cache(&self) -> Option<&SizeCache> {
+                fn size_cache(&self) -> __Option<&__SizeCache> {
                     #size_cache
                 }
             },
@@ -374,9 +374,9 @@ impl<'a> Struct<'a> {
         let merger = self.merger();
 
         self.impler.impl_for(
-            "Deserialize",
+            "__Deserialize",
             quote! {
-                fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+                fn merge(&mut self, reader: &mut __Reader<impl __io::Read>) -> __io::Result<()> {
                     #merger
                     Ok(())
                 }
@@ -410,8 +410,8 @@ impl<'a> Struct<'a> {
 
         let update = if is_variant {
             quote! {
-                Err(io::Error::new(
-                    io::ErrorKind::InvalidData,
+                Err(__io::Error::new(
+                    __io::ErrorKind::InvalidData,
                     "`LogEntryKind::Update` is not supported on variants but their enums",
                 ))
             }
@@ -424,17 +424,17 @@ impl<'a> Struct<'a> {
                 match tag {
                     #(#replayers,)*
 
-                    _ => Err(io::Error::new(
-                        io::ErrorKind::InvalidData,
+                    _ => Err(__io::Error::new(
+                        __io::ErrorKind::InvalidData,
                         format!("unexpected tag {}", tag),
                     )),
                 }
             } else {
                 match kind {
-                    LogEntryKind::Update => #update,
+                    __LogEntryKind::Update => #update,
 
-                    _ => Err(io::Error::new(
-                        io::ErrorKind::InvalidData,
+                    _ => Err(__io::Error::new(
+                        __io::ErrorKind::InvalidData,
                         format!("{:?} is not supported on `{}`", kind, #name),
                     )),
                 }
@@ -449,27 +449,27 @@ impl<'a> Struct<'a> {
         let replayer = self.replayer();
 
         self.impler.impl_for(
-            "State",
+            "__State",
             quote! {
-                fn with_runtime(runtime: Runtime) -> Self {
+                fn with_runtime(runtime: __Runtime) -> Self {
                     Self::#ctor_name(runtime)
                 }
 
-                fn runtime(&self) -> &Runtime {
+                fn runtime(&self) -> &__Runtime {
                     &#runtime
                 }
 
-                fn set_runtime(&mut self, runtime: Runtime) {
+                fn set_runtime(&mut self, runtime: __Runtime) {
                     #runtime_setter
                 }
 
                 fn handle(
                     &mut self,
-                    mut path: impl Iterator<Item = u32>,
-                    kind: LogEntryKind,
-                    key: Option<u32>,
-                    reader: &mut Reader<impl io::Read>,
-                ) -> io::Result<()> {
+                    mut path: impl __Iterator<Item = u32>,
+                    kind: __LogEntryKind,
+                    key: __Option<u32>,
+                    reader: &mut __Reader<impl __io::Read>,
+                ) -> __io::Result<()> {
                     #replayer
                 }
             },
@@ -502,8 +502,8 @@ impl<'a> Struct<'a> {
         };
 
         quote! {
-            StructMeta {
-                name: &NameMeta {
+            __StructMeta {
+                name: &__NameMeta {
                     rust: #rust_name,
                     csharp: #csharp_name,
                 },
@@ -534,24 +534,24 @@ impl<'a> Struct<'a> {
 
         let param_meta_list = self.type_params.iter().map(|param| {
             let name = &param.ident;
-            quote!(FieldTypeMeta::Type(#name::TYPE))
+            quote!(__FieldTypeMeta::Type(#name::TYPE))
         });
 
         let links = self.meta_links();
 
         self.impler.impl_for(
-            "HasMeta",
+            "__HasMeta",
             quote! {
-                const NAME: &'static NameMeta = &NameMeta {
+                const NAME: &'static __NameMeta = &__NameMeta {
                     rust: #rust_name,
                     csharp: #csharp_name,
                 };
 
-                const TYPE: &'static TypeMeta = &TypeMeta::Ref(Self::NAME, &[#(#param_meta_list,)*]);
+                const TYPE: &'static __TypeMeta = &__TypeMeta::Ref(Self::NAME, &[#(#param_meta_list,)*]);
 
-                const LINK: &'static MetaLink = &MetaLink {
+                const LINK: &'static __MetaLink = &__MetaLink {
                     r#type: Self::TYPE,
-                    msg: Some(MessageMeta::Struct(#meta)),
+                    msg: Some(__MessageMeta::Struct(#meta)),
                     links: || &[#links],
                 };
             },
-- 
2.43.0

