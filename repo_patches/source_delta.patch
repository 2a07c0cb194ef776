From 211ef35d72d8fed673398056825d0aba2bc381a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 01/22] fix: remove index entries of the in-memory datastore in
 release builds too

The removal was an argument of debug_assert!, so builds without debug
assertions kept index entries of deleted and overwritten properties.
---
 lib/src/memory/datastore.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index d76a8e2..0de706f 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -263,10 +263,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.vertex_properties.remove(&prop) {
                 let (property_vertex_id, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
+                    }
                 }
             }
         }
@@ -278,10 +277,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                 let (property_edge, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Edge(property_edge)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Edge(property_edge));
+                    }
                 }
             }
         }
-- 
2.43.0


From fd3f1789b316a8ea241ffbcdb1015551fd76c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 02/22] fix: read properties of the vertex with the greatest
 UUID in memory

all_vertex_properties_for_vertex panicked on it, and poisoned the
datastore's lock, because there is no next UUID.
---
 lib/src/memory/datastore.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 0de706f..84935fa 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -6,7 +6,6 @@ use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
 use crate::errors::{Error, Result};
-use crate::util;
 use crate::{Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
 use rmp_serde::decode::Error as RmpDecodeError;
@@ -176,8 +175,10 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
     fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> {
         let mut vertex_properties = Vec::new();
         let from = &(vertex.id, Identifier::default());
-        let to = &(util::next_uuid(vertex.id).unwrap(), Identifier::default());
-        for ((_prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..to) {
+        for ((prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..) {
+            if prop_vertex_id != &vertex.id {
+                break;
+            }
             vertex_properties.push((*prop_name, prop_value.clone()));
         }
         Ok(Box::new(vertex_properties.into_iter().map(Ok)))
-- 
2.43.0


From f142f686029096d130c5045b910025d68ef1d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 03/22] fix: delete inbound edges together with their vertex in
 rocksdb

Entries of the reversed edge range were treated as if they were the edges
themselves, so deleting a vertex left its inbound edges and their
properties behind (and could delete an unrelated edge going the other way).
---
 lib/src/rdb/managers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 6707782..3ee29f2 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -116,9 +116,9 @@ impl<'a> VertexManager<'a> {
         {
             let reversed_edge_range_manager = EdgeRangeManager::new_reversed(self.db);
             for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
-                let edge = item?;
-                debug_assert_eq!(edge.outbound_id, id);
-                edge_manager.delete(batch, indexed_properties, &edge)?;
+                let reversed_edge = item?;
+                debug_assert_eq!(reversed_edge.outbound_id, id);
+                edge_manager.delete(batch, indexed_properties, &reversed_edge.reversed())?;
             }
         }
 
-- 
2.43.0


From c6196b455db45bcb0af9dc8420ae140bf19f6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 04/22] fix: keep no stale index entries when a rocksdb bulk
 insert sets a property twice

Each item removed the index entry of the value stored before the batch, so
the index kept entries for every value the batch gave to one property.
---
 lib/src/rdb/datastore.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 7bb989d..2c1c85b 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use std::sync::{Arc, RwLock};
 
@@ -283,6 +283,12 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
+        // Only the last value of each property is written: index entries are
+        // replaced based on the stored values, which do not reflect earlier
+        // items of the same batch.
+        let mut vertex_properties = HashMap::<(Uuid, Identifier), Json>::default();
+        let mut edge_properties = HashMap::<(Edge, Identifier), Json>::default();
+
         for item in items {
             match item {
                 BulkInsertItem::Vertex(ref vertex) => {
@@ -291,17 +297,25 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
                 BulkInsertItem::Edge(ref edge) => {
                     self.edge_manager.set(&mut batch, edge)?;
                 }
-                BulkInsertItem::VertexProperty(id, ref name, ref value) => {
-                    self.vertex_property_manager
-                        .set(&mut batch, &indexed_properties, id, *name, value)?;
+                BulkInsertItem::VertexProperty(id, name, value) => {
+                    vertex_properties.insert((id, name), value);
                 }
-                BulkInsertItem::EdgeProperty(ref edge, ref name, ref value) => {
-                    self.edge_property_manager
-                        .set(&mut batch, &indexed_properties, edge, *name, value)?;
+                BulkInsertItem::EdgeProperty(edge, name, value) => {
+                    edge_properties.insert((edge, name), value);
                 }
             }
         }
 
+        for ((id, name), value) in &vertex_properties {
+            self.vertex_property_manager
+                .set(&mut batch, &indexed_properties, *id, *name, value)?;
+        }
+
+        for ((edge, name), value) in &edge_properties {
+            self.edge_property_manager
+                .set(&mut batch, &indexed_properties, edge, *name, value)?;
+        }
+
         self.db.write(batch)?;
         Ok(())
     }
-- 
2.43.0


From 1727be6d6579f41ca66334ae24253374c7ab59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 05/22] fix: compare stored values in rocksdb property value
 queries

Value indexes are keyed by a hash that distinct values share (for example
[1,[2],3] and [1,[2,3]], or -1 and 18446744073709551615), so value queries
returned elements with other values.
---
 lib/src/rdb/datastore.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 2c1c85b..e4a867b 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -90,6 +90,17 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         if self.indexed_properties.read().unwrap().contains(&name) {
             let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
             let iter = self.vertex_ids_from_property_value_iterator(iter);
+            // The index only has a hash of the value, which other values may
+            // share.
+            let value = value.clone();
+            let iter = iter.filter_map(move |item| match item {
+                Ok(id) => match self.vertex_property_manager.get(id, name) {
+                    Ok(stored) if stored.as_ref() == Some(&value) => Some(Ok(id)),
+                    Ok(_) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -156,6 +167,17 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
                     Ok((_, _, e)) => Ok(e),
                     Err(err) => Err(err),
                 });
+            // The index only has a hash of the value, which other values may
+            // share.
+            let value = value.clone();
+            let iter = iter.filter_map(move |item| match item {
+                Ok(edge) => match self.edge_property_manager.get(&edge, name) {
+                    Ok(stored) if stored.as_ref() == Some(&value) => Some(Ok(edge)),
+                    Ok(_) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
-- 
2.43.0


From 9b088c36c7f7217aab3e852baae8c9d8238316ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 06/22] fix: serialize writers of a rocksdb datastore

---
 lib/src/rdb/datastore.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index e4a867b..c62ccfe 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashMap, HashSet};
 use std::path::Path;
-use std::sync::{Arc, RwLock};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError, RwLock};
 
 use super::managers::*;
 use crate::errors::Result;
@@ -23,6 +23,7 @@ const CF_NAMES: [&str; 8] = [
 pub struct RocksdbTransaction<'a> {
     db: &'a DB,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
+    write_lock: &'a Mutex<()>,
     vertex_manager: VertexManager<'a>,
     edge_manager: EdgeManager<'a>,
     edge_range_manager: EdgeRangeManager<'a>,
@@ -35,6 +36,13 @@ pub struct RocksdbTransaction<'a> {
 }
 
 impl<'a> RocksdbTransaction<'a> {
+    /// Serializes writers. Mutations read before they write (e.g. to find the
+    /// index entries to replace), and those reads must stay valid until the
+    /// resulting batch is written.
+    fn lock_for_writing(&self) -> MutexGuard<'a, ()> {
+        self.write_lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
     fn vertex_ids_from_property_value_iterator(
         &'a self,
         iter: impl Iterator<Item = Result<VertexPropertyValueKey>> + 'a,
@@ -213,6 +221,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertices(&mut self, vertices: Vec<Vertex>) -> Result<()> {
+        let _write_guard = self.lock_for_writing();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -225,6 +234,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<()> {
+        let _write_guard = self.lock_for_writing();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -239,6 +249,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertex_properties(&mut self, props: Vec<(Uuid, Identifier)>) -> Result<()> {
+        let _write_guard = self.lock_for_writing();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -252,6 +263,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<()> {
+        let _write_guard = self.lock_for_writing();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -278,6 +290,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_vertex(&mut self, vertex: &Vertex) -> Result<bool> {
+        let _write_guard = self.lock_for_writing();
         if self.vertex_manager.exists(vertex.id)? {
             Ok(false)
         } else {
@@ -289,6 +302,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_edge(&mut self, edge: &Edge) -> Result<bool> {
+        let _write_guard = self.lock_for_writing();
         if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
             Ok(false)
         } else {
@@ -302,6 +316,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     // We override the default `bulk_insert` implementation because further
     // optimization can be done by using `WriteBatch`s.
     fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> Result<()> {
+        let _write_guard = self.lock_for_writing();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -343,6 +358,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
+        let _write_guard = self.lock_for_writing();
         let mut indexed_properties = self.indexed_properties.write().unwrap();
         if !indexed_properties.insert(name) {
             return Ok(());
@@ -373,9 +389,14 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()> {
+        let _write_guard = self.lock_for_writing();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for id in vertices.into_iter() {
+            // The vertex may have been deleted since it was looked up.
+            if !self.vertex_manager.exists(id)? {
+                continue;
+            }
             self.vertex_property_manager
                 .set(&mut batch, &indexed_properties, id, name, value)?;
         }
@@ -384,9 +405,14 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn set_edge_properties(&mut self, edges: Vec<Edge>, name: Identifier, value: &Json) -> Result<()> {
+        let _write_guard = self.lock_for_writing();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for edge in edges.into_iter() {
+            // The edge may have been deleted since it was looked up.
+            if !self.edge_range_manager.contains(&edge)? {
+                continue;
+            }
             self.edge_property_manager
                 .set(&mut batch, &indexed_properties, &edge, name, value)?;
         }
@@ -400,6 +426,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 pub struct RocksdbDatastore {
     db: Arc<DB>,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
+    write_lock: Mutex<()>,
 }
 
 impl RocksdbDatastore {
@@ -430,6 +457,7 @@ impl RocksdbDatastore {
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
+            write_lock: Mutex::new(()),
         }))
     }
 
@@ -460,6 +488,7 @@ impl RocksdbDatastore {
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
+            write_lock: Mutex::new(()),
         }))
     }
 
@@ -513,6 +542,7 @@ impl Datastore for RocksdbDatastore {
         RocksdbTransaction {
             db: &self.db,
             indexed_properties: self.indexed_properties.clone(),
+            write_lock: &self.write_lock,
             vertex_manager: VertexManager::new(&self.db),
             edge_manager: EdgeManager::new(&self.db),
             edge_range_manager: EdgeRangeManager::new(&self.db),
-- 
2.43.0


From 293853dcb5f9d3d075302acb35b6f4b348b150d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 07/22] fix: index rocksdb property values as they are stored

---
 lib/src/rdb/managers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 3ee29f2..2ba30cf 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -356,8 +356,12 @@ impl<'a> VertexPropertyManager<'a> {
         let value_json = serde_json::to_vec(value)?;
         batch.put_cf(&self.cf, &key, &value_json);
         if is_indexed {
+            // Some floats do not survive serialization exactly. Index the value
+            // as it will be read back, so that its entry is found again when
+            // the property changes.
+            let stored_value: models::Json = serde_json::from_slice(&value_json)?;
             let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);
-            vertex_property_value_manager.set(batch, vertex_id, name, value);
+            vertex_property_value_manager.set(batch, vertex_id, name, &stored_value);
         }
         Ok(())
     }
@@ -470,8 +474,12 @@ impl<'a> EdgePropertyManager<'a> {
         let value_json = serde_json::to_vec(value)?;
         batch.put_cf(&self.cf, &key, &value_json);
         if is_indexed {
+            // Some floats do not survive serialization exactly. Index the value
+            // as it will be read back, so that its entry is found again when
+            // the property changes.
+            let stored_value: models::Json = serde_json::from_slice(&value_json)?;
             let edge_property_value_manager = EdgePropertyValueManager::new(self.db);
-            edge_property_value_manager.set(batch, edge, name, value);
+            edge_property_value_manager.set(batch, edge, name, &stored_value);
         }
         Ok(())
     }
-- 
2.43.0


From 6d9a0cb77b32f4edc262c3222a1638a6739bdc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 08/22] fix: open rocksdb databases whose creation or repair
 was interrupted

---
 lib/src/rdb/datastore.rs | 53 ++++++++++------------------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index c62ccfe..4965cf7 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -6,7 +6,7 @@ use super::managers::*;
 use crate::errors::Result;
 use crate::{BulkInsertItem, Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
-use rocksdb::{DBCompactionStyle, Options, WriteBatch, DB};
+use rocksdb::{ColumnFamilyDescriptor, DBCompactionStyle, Options, WriteBatch, DB};
 use uuid::Uuid;
 
 const CF_NAMES: [&str; 8] = [
@@ -435,30 +435,7 @@ impl RocksdbDatastore {
     /// # Arguments
     /// * `path`: The file path to the rocksdb database.
     pub fn new_db<P: AsRef<Path>>(path: P) -> Result<Database<RocksdbDatastore>> {
-        let opts = RocksdbDatastore::get_options(None);
-        let path = path.as_ref();
-
-        let db = match DB::open_cf(&opts, path, CF_NAMES) {
-            Ok(db) => db,
-            Err(_) => {
-                let mut db = DB::open(&opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, &opts)?;
-                }
-
-                db
-            }
-        };
-
-        let metadata_manager = MetadataManager::new(&db);
-        let indexed_properties = metadata_manager.get_indexed_properties()?;
-
-        Ok(Database::new(RocksdbDatastore {
-            db: Arc::new(db),
-            indexed_properties: Arc::new(RwLock::new(indexed_properties)),
-            write_lock: Mutex::new(()),
-        }))
+        RocksdbDatastore::new_db_with_options(path, &RocksdbDatastore::get_options(None))
     }
 
     /// Creates a new rocksdb datastore with user-tuned rocksdb Option.
@@ -467,21 +444,7 @@ impl RocksdbDatastore {
     /// * `path`: The file path to the rocksdb database.
     /// * `opts`: The user-tuned rocksdb options.
     pub fn new_db_with_options<P: AsRef<Path>>(path: P, opts: &Options) -> Result<Database<RocksdbDatastore>> {
-        let path = path.as_ref();
-
-        let db = match DB::open_cf(opts, path, CF_NAMES) {
-            Ok(db) => db,
-            Err(_) => {
-                let mut db = DB::open(opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, opts)?;
-                }
-
-                db
-            }
-        };
-
+        let db = RocksdbDatastore::open(path.as_ref(), opts)?;
         let metadata_manager = MetadataManager::new(&db);
         let indexed_properties = metadata_manager.get_indexed_properties()?;
 
@@ -492,6 +455,16 @@ impl RocksdbDatastore {
         }))
     }
 
+    /// Opens the underlying rocksdb database. Column families that do not
+    /// exist (because the database is new, or its creation or repair did not
+    /// get to them) are created.
+    fn open(path: &Path, opts: &Options) -> Result<DB> {
+        let mut db_opts = opts.clone();
+        db_opts.create_missing_column_families(true);
+        let cfs = CF_NAMES.map(|name| ColumnFamilyDescriptor::new(name, opts.clone()));
+        Ok(DB::open_cf_descriptors(&db_opts, path, cfs)?)
+    }
+
     /// Runs a repair operation on the rocksdb database.
     ///
     /// # Arguments
-- 
2.43.0


From d95ca213da78f988820f13e03b609e73dc8ab57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 09/22] fix: lose no logged data when repairing a rocksdb
 database

---
 lib/src/rdb/datastore.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 4965cf7..4b68223 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -471,6 +471,17 @@ impl RocksdbDatastore {
     /// * `path`: The file path to the rocksdb database.
     /// * `opts`: The rocksdb options used on datastore.
     pub fn repair<P: AsRef<Path>>(path: P, opts: &Options) -> Result<()> {
+        // Rocksdb's repair drops the part of the write-ahead log that belongs
+        // to column families without table files, so write out the tables
+        // first if that is possible.
+        let mut existing_opts = opts.clone();
+        existing_opts.create_if_missing(false);
+        if let Ok(db) = RocksdbDatastore::open(path.as_ref(), &existing_opts) {
+            for cf in CF_NAMES.iter().filter_map(|name| db.cf_handle(name)) {
+                db.flush_cf(&cf)?;
+            }
+        }
+
         DB::repair(opts, path)?;
         Ok(())
     }
-- 
2.43.0


From 6ba4ff1fb5754a2224e2d31a9a0e3d9132a7d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 10/22] fix: replace in-memory images atomically and durably

The temporary file was written to the system's temporary directory, so that
sync failed if that is another filesystem; errors while writing out the last
buffered part were ignored, so that a truncated file could replace the image;
and nothing was forced to disk.
---
 lib/src/memory/datastore.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 84935fa..fa1c422 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,7 +1,7 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
-use std::path::PathBuf;
+use std::io::{BufReader, BufWriter, Write};
+use std::path::{Path, PathBuf};
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
@@ -289,14 +289,25 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
 
     fn sync(&self) -> Result<()> {
         if let Some(ref persist_path) = self.path {
-            let temp_path = NamedTempFile::new().map_err(|err| Error::Datastore(Box::new(err)))?;
+            // The temporary file has to be on the same filesystem as the image
+            // for the image to be atomically replaced by it.
+            let parent = match persist_path.parent() {
+                Some(parent) if !parent.as_os_str().is_empty() => parent,
+                _ => Path::new("."),
+            };
+            let temp_path = NamedTempFile::new_in(parent).map_err(|err| Error::Datastore(Box::new(err)))?;
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
+                buf.flush()?;
             }
+            temp_path.as_file().sync_all()?;
             temp_path
                 .persist(persist_path)
                 .map_err(|err| Error::Datastore(Box::new(err)))?;
+            // Makes the replacement itself durable.
+            #[cfg(unix)]
+            File::open(parent)?.sync_all()?;
         }
         Ok(())
     }
-- 
2.43.0


From 389e507bdc29be0cebf9453118a40c7c731c565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 11/22] fix: do not take a rocksdb property as indexed when
 indexing it failed

---
 lib/src/rdb/datastore.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 4b68223..72a69fa 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -360,13 +360,17 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     fn index_property(&mut self, name: Identifier) -> Result<()> {
         let _write_guard = self.lock_for_writing();
         let mut indexed_properties = self.indexed_properties.write().unwrap();
-        if !indexed_properties.insert(name) {
+        if indexed_properties.contains(&name) {
             return Ok(());
         }
 
+        // The property only counts as indexed once its index has been written.
+        let mut new_indexed_properties = indexed_properties.clone();
+        new_indexed_properties.insert(name);
+
         let mut batch = WriteBatch::default();
         self.metadata_manager
-            .set_indexed_properties(&mut batch, &indexed_properties)?;
+            .set_indexed_properties(&mut batch, &new_indexed_properties)?;
 
         for item in self.vertex_manager.iterate_for_range(Uuid::default()) {
             let vertex = item?;
@@ -385,6 +389,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         }
 
         self.db.write(batch)?;
+        *indexed_properties = new_indexed_properties;
         Ok(())
     }
 
-- 
2.43.0


From 9fe78f2ece2efdc3740961a6261d89c97caadd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:54 +0000
Subject: [PATCH 12/22] fix: finish interrupted repairs of rocksdb databases

Rocksdb's repair starts by replacing the manifest with an empty one. Opening
the database after a repair was interrupted then removed all table files.
---
 lib/src/rdb/datastore.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 72a69fa..50d3a45 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use std::fs::{self, File};
 use std::path::Path;
 use std::sync::{Arc, Mutex, MutexGuard, PoisonError, RwLock};
 
@@ -20,6 +21,9 @@ const CF_NAMES: [&str; 8] = [
     "metadata:v2",
 ];
 
+/// Exists in a database's directory while a repair is under way.
+const REPAIR_MARKER: &str = "REPAIRING";
+
 pub struct RocksdbTransaction<'a> {
     db: &'a DB,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
@@ -449,6 +453,12 @@ impl RocksdbDatastore {
     /// * `path`: The file path to the rocksdb database.
     /// * `opts`: The user-tuned rocksdb options.
     pub fn new_db_with_options<P: AsRef<Path>>(path: P, opts: &Options) -> Result<Database<RocksdbDatastore>> {
+        // What an interrupted repair leaves behind looks like an empty database,
+        // and opening it would remove the files that the data is still in.
+        if path.as_ref().join(REPAIR_MARKER).exists() {
+            RocksdbDatastore::repair(path.as_ref(), opts)?;
+        }
+
         let db = RocksdbDatastore::open(path.as_ref(), opts)?;
         let metadata_manager = MetadataManager::new(&db);
         let indexed_properties = metadata_manager.get_indexed_properties()?;
@@ -476,18 +486,30 @@ impl RocksdbDatastore {
     /// * `path`: The file path to the rocksdb database.
     /// * `opts`: The rocksdb options used on datastore.
     pub fn repair<P: AsRef<Path>>(path: P, opts: &Options) -> Result<()> {
-        // Rocksdb's repair drops the part of the write-ahead log that belongs
-        // to column families without table files, so write out the tables
-        // first if that is possible.
-        let mut existing_opts = opts.clone();
-        existing_opts.create_if_missing(false);
-        if let Ok(db) = RocksdbDatastore::open(path.as_ref(), &existing_opts) {
-            for cf in CF_NAMES.iter().filter_map(|name| db.cf_handle(name)) {
-                db.flush_cf(&cf)?;
+        let path = path.as_ref();
+        let marker = path.join(REPAIR_MARKER);
+
+        if !marker.exists() {
+            // Rocksdb's repair drops the part of the write-ahead log that
+            // belongs to column families without table files, so write out
+            // the tables first if that is possible.
+            let mut existing_opts = opts.clone();
+            existing_opts.create_if_missing(false);
+            if let Ok(db) = RocksdbDatastore::open(path, &existing_opts) {
+                for cf in CF_NAMES.iter().filter_map(|name| db.cf_handle(name)) {
+                    db.flush_cf(&cf)?;
+                }
             }
+
+            File::create(&marker)?.sync_all()?;
+            #[cfg(unix)]
+            File::open(path)?.sync_all()?;
         }
 
         DB::repair(opts, path)?;
+        fs::remove_file(&marker)?;
+        #[cfg(unix)]
+        File::open(path)?.sync_all()?;
         Ok(())
     }
 
-- 
2.43.0


From 4a922d6258381a9685d505b361365ed585aaa957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 13/22] fix: report panics of vertex mappers as errors

A mapper that panicked took its worker thread down, which the thread pool
replaced; map() then returned success although a vertex was not processed.
---
 plugins/host/src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugins/host/src/util.rs b/plugins/host/src/util.rs
index 7898486..c90a4d5 100644
--- a/plugins/host/src/util.rs
+++ b/plugins/host/src/util.rs
@@ -1,4 +1,5 @@
 use std::cmp::max;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::{Arc, Mutex};
 
 use crate::errors::Error;
@@ -41,7 +42,10 @@ pub fn map<'a, M: VertexMapper>(txn: &(dyn indradb::Transaction<'a> + 'a), mappe
                 let mapper = mapper.clone();
                 let first_err = first_err.clone();
                 pool.execute(move || {
-                    if let Err(err) = mapper.map(vertex) {
+                    // A panic must not get lost with the worker thread.
+                    let res = catch_unwind(AssertUnwindSafe(|| mapper.map(vertex)))
+                        .unwrap_or_else(|_| Err(Error::Other("vertex mapper panicked".into())));
+                    if let Err(err) = res {
                         let mut first_err = first_err.lock().unwrap();
                         if first_err.is_none() {
                             *first_err = Some(err);
-- 
2.43.0


From 7d44d91ae4a396e00f8147997f30b2d864f4593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 14/22] fix: do not insert part of a bulk insert whose stream
 was cancelled

hyper reports a request body whose stream was reset with CANCEL or NO_ERROR
as ended, so the items received so far looked like the whole request and were
inserted. Yield once before inserting: the transport then notices the reset
and drops the call.
---
 proto/src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index fdd0451..8aa3f99 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -272,6 +272,11 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
             items
         };
 
+        // A stream that the client cancelled looks like one that ended. Give
+        // the transport the chance to drop this call in that case, rather than
+        // inserting only some of the items.
+        tokio::task::yield_now().await;
+
         map_jh_indra_result(tokio::task::spawn_blocking(move || db.bulk_insert(items)).await)?;
         Ok(Response::new(()))
     }
-- 
2.43.0


From fb3e4b3094440479d0ac9db9bd9aac5f391405cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 15/22] fix: keep the server running when a connection cannot
 be accepted

An error of accept() other than an aborted connection, e.g. too many open
files, ended the stream of incoming connections, upon which tonic shut the
server down. Report it, wait a moment and go on.
---
 proto/src/server.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index 8aa3f99..7c1cf21 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -2,12 +2,14 @@ use std::collections::HashMap;
 use std::convert::TryInto;
 use std::error::Error as StdError;
 use std::fmt;
+use std::io::Error as IoError;
 use std::path::PathBuf;
 use std::pin::Pin;
 use std::sync::Arc;
+use std::time::Duration;
 
 use libloading::Library;
-use tokio::net::TcpListener;
+use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio_stream::wrappers::{ReceiverStream, TcpListenerStream};
 use tokio_stream::{Stream, StreamExt};
@@ -16,6 +18,23 @@ use tonic::{Request, Response, Status, Streaming};
 
 const CHANNEL_CAPACITY: usize = 100;
 
+/// How long to wait after a connection could not be accepted.
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
+
+/// Incoming connections. Tonic stops the server when accepting a connection
+/// fails, but the reason may well be temporary, e.g. too many open files.
+fn incoming(listener: TcpListener) -> impl Stream<Item = Result<TcpStream, IoError>> {
+    TcpListenerStream::new(listener)
+        .then(|res| async {
+            if let Err(ref err) = res {
+                eprintln!("could not accept connection: {err}");
+                tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
+            }
+            res
+        })
+        .filter(|res| res.is_ok())
+}
+
 fn send(tx: &mpsc::Sender<Result<crate::QueryOutputValue, Status>>, result: Result<crate::QueryOutputValue, Status>) {
     if let Err(err) = tx.blocking_send(result) {
         eprintln!("could not send message to client: {err}");
@@ -331,10 +350,9 @@ where
     D: indradb::Datastore + Send + Sync + 'static,
 {
     let service = crate::indra_db_server::IndraDbServer::new(Server::new(db));
-    let incoming = TcpListenerStream::new(listener);
     TonicServer::builder()
         .add_service(service)
-        .serve_with_incoming(incoming)
+        .serve_with_incoming(incoming(listener))
         .await?;
 
     Ok(())
@@ -370,10 +388,9 @@ where
 
     let server = Server::new_with_plugins(db, plugin_paths)?;
     let service = crate::indra_db_server::IndraDbServer::new(server);
-    let incoming = TcpListenerStream::new(listener);
     TonicServer::builder()
         .add_service(service)
-        .serve_with_incoming(incoming)
+        .serve_with_incoming(incoming(listener))
         .await?;
 
     Ok(())
-- 
2.43.0


From 2743a0d27e4ef7ddd19259f072211010f0a39b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 16/22] fix: compare identifiers by value, as plugins intern
 their own

---
 lib/src/models/identifiers.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/src/models/identifiers.rs b/lib/src/models/identifiers.rs
index abc494b..1022879 100644
--- a/lib/src/models/identifiers.rs
+++ b/lib/src/models/identifiers.rs
@@ -1,4 +1,5 @@
 use std::convert::TryFrom;
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use std::str::FromStr;
 
@@ -10,9 +11,24 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// A string that must be less than 256 characters long, and can only contain
 /// letters, numbers, dashes and underscores. This is used for vertex and edge
 /// types, as well as property names.
-#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash, Ord, PartialOrd)]
+#[derive(Eq, Copy, Clone, Debug, Ord, PartialOrd)]
 pub struct Identifier(pub(crate) Intern<String>);
 
+// Equality and hashing are on the value rather than on the interned pointer,
+// because plugins have an interning table of their own: identifiers made by
+// them have other pointers than equal ones made by the server.
+impl PartialEq for Identifier {
+    fn eq(&self, other: &Self) -> bool {
+        self.0 == other.0 || self.as_str() == other.as_str()
+    }
+}
+
+impl Hash for Identifier {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.as_str().hash(state);
+    }
+}
+
 impl Identifier {
     /// Constructs a new identifier.
     ///
-- 
2.43.0


From c0f5f5e529bdd4a9aaf3904ffb55c07245d85fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 17/22] fix: report panics of plugins as errors

---
 plugins/host/src/decl.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/plugins/host/src/decl.rs b/plugins/host/src/decl.rs
index 4e156e2..9bc220b 100644
--- a/plugins/host/src/decl.rs
+++ b/plugins/host/src/decl.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 use std::fmt;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 
 use crate::errors::Error;
 
@@ -54,6 +55,23 @@ pub trait Plugin: Send + Sync + 'static {
     ) -> Result<indradb::Json, Error>;
 }
 
+/// Reports panics of a plugin as errors. This has to happen within the
+/// plugin's library: a panic that reaches the server would abort it, because
+/// the server is linked to another copy of the Rust runtime.
+#[doc(hidden)]
+pub struct PanicGuard(pub Box<dyn Plugin>);
+
+impl Plugin for PanicGuard {
+    fn call<'a>(
+        &self,
+        txn: &mut (dyn indradb::Transaction<'a> + 'a),
+        arg: indradb::Json,
+    ) -> Result<indradb::Json, Error> {
+        catch_unwind(AssertUnwindSafe(|| self.0.call(txn, arg)))
+            .unwrap_or_else(|_| Err(Error::Other("plugin panicked".into())))
+    }
+}
+
 /// A declaration of a plugin.
 pub struct PluginDeclaration {
     pub version_info: VersionInfo,
@@ -72,6 +90,7 @@ macro_rules! register_plugins {
             $(
                 {
                     let t: Box<dyn $crate::Plugin> = $t();
+                    let t: Box<dyn $crate::Plugin> = Box::new($crate::PanicGuard(t));
                     entries.insert($name.to_string(), t);
                 }
             )*
-- 
2.43.0


From 94330a1b430552c00d23382b2df1af77cab08601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 18/22] fix: run plugins on blocking threads

---
 proto/src/server.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index 7c1cf21..cc671c1 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -319,20 +319,23 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
             indradb::Json::new(serde_json::Value::Null)
         };
 
-        if let Some(plugin) = self.plugins.entries.get(&request.name) {
-            let db = self.db.clone();
-            let mut txn = db.datastore.transaction();
-            let response = {
-                plugin
-                    .call(&mut txn, arg)
-                    .map_err(|err| Status::internal(format!("{err}")))?
-            };
-            Ok(Response::new(crate::ExecutePluginResponse {
-                value: Some(response.into()),
-            }))
-        } else {
-            Err(Status::not_found("unknown plugin"))
+        if !self.plugins.entries.contains_key(&request.name) {
+            return Err(Status::not_found("unknown plugin"));
         }
+
+        let db = self.db.clone();
+        let plugins = self.plugins.clone();
+        let response = tokio::task::spawn_blocking(move || {
+            let mut txn = db.datastore.transaction();
+            plugins.entries[&request.name].call(&mut txn, arg)
+        })
+        .await
+        .map_err(|err| Status::internal(format!("{err}")))?
+        .map_err(|err| Status::internal(format!("{err}")))?;
+
+        Ok(Response::new(crate::ExecutePluginResponse {
+            value: Some(response.into()),
+        }))
     }
 }
 
-- 
2.43.0


From bfb42aba390fbb49f83c303d9e6b02bb3f42de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 19/22] fix: report panics of queries to the client

---
 proto/src/server.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index cc671c1..4884c6d 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -250,14 +250,12 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
     async fn get(&self, request: Request<crate::Query>) -> Result<Response<Self::GetStream>, Status> {
         let db = self.db.clone();
         let q: indradb::Query = map_conversion_result(request.into_inner().try_into())?;
+        let output = map_jh_indra_result(tokio::task::spawn_blocking(move || db.get(q)).await)?;
         let (tx, rx) = mpsc::channel(CHANNEL_CAPACITY);
-        tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
-            Ok(output) => {
-                for output in output.into_iter() {
-                    send(&tx, Ok(output.into()));
-                }
+        tokio::task::spawn_blocking(move || {
+            for output in output.into_iter() {
+                send(&tx, Ok(output.into()));
             }
-            Err(err) => send(&tx, Err(err)),
         });
 
         Ok(Response::new(Box::pin(ReceiverStream::new(rx))))
-- 
2.43.0


From d261ec1b678861f2ea0b78ec0bd2f7c6d6175b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 20/22] fix: repairing a database that is open elsewhere left a
 marker that made the next open lose its log

---
 lib/src/rdb/datastore.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 50d3a45..569239f 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -495,10 +495,16 @@ impl RocksdbDatastore {
             // the tables first if that is possible.
             let mut existing_opts = opts.clone();
             existing_opts.create_if_missing(false);
-            if let Ok(db) = RocksdbDatastore::open(path, &existing_opts) {
-                for cf in CF_NAMES.iter().filter_map(|name| db.cf_handle(name)) {
-                    db.flush_cf(&cf)?;
+            match RocksdbDatastore::open(path, &existing_opts) {
+                Ok(db) => {
+                    for cf in CF_NAMES.iter().filter_map(|name| db.cf_handle(name)) {
+                        db.flush_cf(&cf)?;
+                    }
                 }
+                // The database is open elsewhere: leave no marker, or the next
+                // open would repair it without writing out the tables.
+                Err(err) if err.to_string().contains("/LOCK: ") => return Err(err),
+                Err(_) => {}
             }
 
             File::create(&marker)?.sync_all()?;
-- 
2.43.0


From 4989582e79775a6e11c458e29e833b6bb376ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:19 +0000
Subject: [PATCH 21/22] fix: a server that could not examine its image started
 empty and replaced it at the next sync

---
 server/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index b68f0f8..20a2528 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -64,7 +64,9 @@ pub async fn main() -> Result<(), Box<dyn Error>> {
         CliDatastoreArgs::Memory { path } => {
             let datastore = match path {
                 None => indradb::MemoryDatastore::new_db(),
-                Some(path) if Path::new(path.as_os_str()).exists() => indradb::MemoryDatastore::read_msgpack_db(path)?,
+                Some(path) if Path::new(path.as_os_str()).try_exists()? => {
+                    indradb::MemoryDatastore::read_msgpack_db(path)?
+                }
                 Some(path) => indradb::MemoryDatastore::create_msgpack_db(path),
             };
             run_server(datastore, listener, &args.plugin_path).await
-- 
2.43.0


From 8d92d9d9288a701a1b6954862cafb82c6ee6eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:06 +0000
Subject: [PATCH 22/22] fix: do not take a repair marker that cannot be
 examined for none

---
 lib/src/rdb/datastore.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 569239f..931275b 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -455,7 +455,7 @@ impl RocksdbDatastore {
     pub fn new_db_with_options<P: AsRef<Path>>(path: P, opts: &Options) -> Result<Database<RocksdbDatastore>> {
         // What an interrupted repair leaves behind looks like an empty database,
         // and opening it would remove the files that the data is still in.
-        if path.as_ref().join(REPAIR_MARKER).exists() {
+        if path.as_ref().join(REPAIR_MARKER).try_exists()? {
             RocksdbDatastore::repair(path.as_ref(), opts)?;
         }
 
@@ -489,7 +489,7 @@ impl RocksdbDatastore {
         let path = path.as_ref();
         let marker = path.join(REPAIR_MARKER);
 
-        if !marker.exists() {
+        if !marker.try_exists()? {
             // Rocksdb's repair drops the part of the write-ahead log that
             // belongs to column families without table files, so write out
             // the tables first if that is possible.
-- 
2.43.0

