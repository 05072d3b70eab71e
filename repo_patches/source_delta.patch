From 980cc6d377f2b5db827341a43791556707cfdf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 01/45] fix: lock the primary key before the duplicate check of
 an insert

Two concurrent inserts of the same _id could both pass the unlocked check;
the second one then silently overwrote the first, acknowledged document.
---
 src/polodb_core/db/db_inner.rs            |  4 ++-
 src/polodb_core/db/rocksdb_transaction.rs | 34 +++++++++++++++++++++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 44c62d2..1c2dfcb 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -431,7 +431,9 @@ impl DatabaseInner {
             pkey,
         ])?;
 
-        if txn.rocksdb_txn.get(stacked_key.as_ref())?.is_some() {
+        // lock the key before checking it, otherwise a concurrent insert
+        // could pass the check as well and overwrite this document.
+        if txn.rocksdb_txn.get_for_update(stacked_key.as_ref(), true)?.is_some() {
             return Err(DuplicateKeyError {
                 name: "_id_".to_string(),
                 key: pkey.to_string(),
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 568b15d..222c331 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -68,6 +68,14 @@ impl RocksDBTransaction {
         inner.get(key)
     }
 
+    /// Lock the key until the end of the transaction, and read its newest value.
+    ///
+    /// The lock is taken even if the key doesn't exist.
+    pub fn get_for_update(&self, key: &[u8], exclusive: bool) -> Result<Option<Vec<u8>>> {
+        let inner = self.inner.lock().unwrap();
+        inner.get_for_update(key, exclusive)
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.delete(key)
@@ -166,6 +174,32 @@ impl RocksDBTransactionInner {
         }
     }
 
+    pub fn get_for_update(&self, key: &[u8], exclusive: bool) -> Result<Option<Vec<u8>>> {
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            let mut value_len: usize = 0;
+            let value = ffi::rocksdb_transaction_get_for_update(
+                self.inner,
+                self.read_options.get(),
+                key.as_ptr().cast::<c_char>(),
+                key.len(),
+                &mut value_len,
+                if exclusive { 1 } else { 0 },
+                &mut err,
+            );
+
+            check_err!(err);
+
+            if value.is_null() {
+                return Ok(None);
+            }
+
+            let result = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
+            ffi::rocksdb_free(value.cast());
+            Ok(Some(result))
+        }
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
-- 
2.43.0


From 07bee73ec527d14234eb69fb33d2f5f1e7f5ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 02/45] fix: lock the value of a unique index before checking
 it

Two concurrent writers of the same value could both find the index empty
and both insert, so that a unique index held two documents of one value.
---
 src/polodb_core/index/index_helper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 843b3dd..58314da 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -143,10 +143,15 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
             None,
         )?;
 
+        // lock the value before looking for it, otherwise a concurrent insert
+        // of the same value could pass the check as well.
+        let _ = txn.rocksdb_txn.get_for_update(&index_key_tester, true)?;
+
         let cursor = txn.rocksdb_txn.new_iterator();
         cursor.seek(&index_key_tester);
 
         if !cursor.valid() {
+            cursor.error()?;
             return Ok(());
         }
         let current_key = cursor.copy_key_arc()?;
-- 
2.43.0


From 036b00f9861ace28cf8d3abb5b65a24eaa010b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 03/45] fix: report a failed read instead of ending the
 iteration

A RocksDB iterator is not valid both at the end of the data and after a
failed read. Without looking at the error, a read error turned into a
truncated or empty result, or a missing collection.
---
 src/polodb_core/cursor.rs              | 9 ++++++++-
 src/polodb_core/db/rocksdb_iterator.rs | 1 -
 src/polodb_core/vm/vm.rs               | 1 +
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/cursor.rs b/src/polodb_core/cursor.rs
index 21f690e..2f875f4 100644
--- a/src/polodb_core/cursor.rs
+++ b/src/polodb_core/cursor.rs
@@ -64,6 +64,9 @@ impl Cursor {
 
         if self.kv_cursor.valid() {
             self.current_key = Some(self.kv_cursor.copy_key_arc()?);
+        } else {
+            // the end of the data, or a failed read?
+            self.kv_cursor.error()?;
         }
 
         Ok(())
@@ -100,6 +103,8 @@ impl Cursor {
             if let Some(found) = &self.current_key {
                 return Ok(found.as_ref().cmp(key_buffer) == Ordering::Equal);
             }
+        } else {
+            self.kv_cursor.error()?;
         }
 
         Ok(false)
@@ -119,6 +124,8 @@ impl Cursor {
                 let starts_with = found.as_ref().starts_with(key_buffer.as_slice());
                 return Ok(starts_with);
             }
+        } else {
+            self.kv_cursor.error()?;
         }
 
         Ok(false)
@@ -147,7 +154,7 @@ impl Cursor {
         self.kv_cursor.next();
         if !self.kv_cursor.valid() {
             self.current_key = None;
-            return Ok(());
+            return self.kv_cursor.error();
         }
         self.current_key = Some(self.kv_cursor.copy_key_arc()?);
         Ok(())
diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index d560a53..10950b7 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -54,7 +54,6 @@ impl RocksDBIterator {
         self.inner.prev()
     }
 
-    #[allow(dead_code)]
     pub fn error(&self) -> Result<()> {
         self.inner.error()
     }
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index bc1fa9c..983cd71 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -217,6 +217,7 @@ impl VM {
         db_iter.seek(pkey_in_kv.as_slice());
 
         if !db_iter.valid() {
+            db_iter.error()?;
             return Ok(None);
         }
         let current_key = db_iter.copy_key()?;
-- 
2.43.0


From d96d69cc37cabc0f663c05fd312ee758f14e4ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 04/45] fix: lock a document and check it again before an
 update or delete

Two transactions that updated the same document at the same time both
wrote the version that they had read without a lock, so one of the
updates was lost, and a deleted document came back.
---
 src/polodb_core/vm/codegen.rs    | 13 +++++++-
 src/polodb_core/vm/subprogram.rs | 16 ++++++++++
 src/polodb_core/vm/vm.rs         | 55 ++++++++++++++++++++++++++++++++
 3 files changed, 83 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 5a9374d..7666d14 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -21,7 +21,7 @@ use crate::vm::global_variable::{GlobalVariable, GlobalVariableSlot};
 use crate::vm::op::DbOp;
 use crate::vm::operators::OpRegistry;
 use crate::vm::query_matcher::validate_membership_candidates;
-use crate::vm::subprogram::SubProgramIndexItem;
+use crate::vm::subprogram::{RowLabels, SubProgramIndexItem};
 use crate::vm::update_operators::{
     IncOperator, MaxOperator, MinOperator, MulOperator, PopOperator, PushOperator, RenameOperator,
     SetOperator, UnsetOperator, UpdateOperator,
@@ -119,6 +119,13 @@ impl Codegen {
         Ok(GlobalVariable::new(id))
     }
 
+    /// Only a program that writes needs them: see `VM::lock_current_row`
+    pub(super) fn set_row_labels(&mut self, check: Label, skip: Label) {
+        if self.is_write {
+            self.program.row_labels = Some(RowLabels { check, skip });
+        }
+    }
+
     pub(super) fn new_label(&mut self) -> Label {
         let id = self.program.label_slots.len() as u32;
         self.program.label_slots.push(LabelSlot::Empty);
@@ -174,6 +181,8 @@ impl Codegen {
         let close_label = self.new_label();
         let result_label = self.new_label();
 
+        self.set_row_labels(result_label, close_label);
+
         let pkey_id = self.push_static(pkey);
         self.emit_push_value(pkey_id);
 
@@ -248,6 +257,8 @@ impl Codegen {
         let not_found_label = self.new_label();
         let close_label = self.new_label();
 
+        self.set_row_labels(compare_label, not_found_label);
+
         self.emit_goto(DbOp::Rewind, close_label);
 
         self.emit_goto(DbOp::Goto, compare_label);
diff --git a/src/polodb_core/vm/subprogram.rs b/src/polodb_core/vm/subprogram.rs
index 3aae2b7..09ec2a2 100644
--- a/src/polodb_core/vm/subprogram.rs
+++ b/src/polodb_core/vm/subprogram.rs
@@ -20,6 +20,7 @@ use crate::utils::str::escape_binary_to_string;
 use crate::vm::aggregation_codegen_context::AggregationCodeGenContext;
 use crate::vm::codegen::Codegen;
 use crate::vm::global_variable::GlobalVariableSlot;
+use crate::vm::label::Label;
 use crate::vm::update_operators::UpdateOperator;
 use crate::vm::vm_external_func::VmExternalFunc;
 use crate::Result;
@@ -34,6 +35,16 @@ pub(crate) struct SubProgramIndexItem {
     pub indexes: IndexMap<String, IndexInfo>,
 }
 
+/// Where a program that writes continues with the current row:
+/// the document of the row is on the top of the stack at both labels.
+#[derive(Clone, Copy)]
+pub(super) struct RowLabels {
+    /// check (again) if the document matches, and write it if it does
+    pub check: Label,
+    /// leave the document as it is
+    pub skip: Label,
+}
+
 pub(crate) struct SubProgram {
     pub(super) static_values: Vec<Bson>,
     pub(super) instructions: Vec<u8>,
@@ -42,6 +53,7 @@ pub(crate) struct SubProgram {
     pub(super) index_infos: Vec<SubProgramIndexItem>,
     pub(crate) external_funcs: Vec<Box<dyn VmExternalFunc>>,
     pub(crate) update_operators: Vec<Box<dyn UpdateOperator>>,
+    pub(super) row_labels: Option<RowLabels>,
 }
 
 impl SubProgram {
@@ -54,6 +66,7 @@ impl SubProgram {
             index_infos: Vec::new(),
             external_funcs: Vec::new(),
             update_operators: Vec::new(),
+            row_labels: None,
         }
     }
 
@@ -197,6 +210,7 @@ impl SubProgram {
 
         let result_label = codegen.new_label();
         let next_label = codegen.new_label();
+        let skip_label = codegen.new_label();
         let close_label = codegen.new_label();
 
         codegen.emit_open(col_name.into());
@@ -212,12 +226,14 @@ impl SubProgram {
         codegen.emit(DbOp::Close);
         codegen.emit(DbOp::Halt);
 
+        codegen.set_row_labels(result_label, skip_label);
         codegen.emit_label(result_label);
         if has_indexes {
             codegen.emit(DbOp::DeleteIndex);
             codegen.emit_u32(index_item_id);
         }
         codegen.emit_delete_operation();
+        codegen.emit_label(skip_label);
         codegen.emit(DbOp::Pop);
 
         codegen.emit_goto(DbOp::Goto, next_label);
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 983cd71..6571384 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -24,6 +24,7 @@ use crate::{Error, Metrics, Result};
 use bson::{Bson, Document};
 use std::cell::Cell;
 use std::cmp::Ordering;
+use std::sync::Arc;
 
 macro_rules! try_vm {
     ($self:ident, $action:expr) => {
@@ -76,6 +77,7 @@ pub(crate) struct VM {
     pub(crate) program: SubProgram,
     global_vars: Vec<Bson>,
     index_value: Option<Bson>,
+    locked_row: Option<Arc<[u8]>>,
     metrics: Metrics,
 }
 
@@ -106,6 +108,7 @@ impl VM {
             program,
             global_vars,
             index_value: None,
+            locked_row: None,
             metrics,
         }
     }
@@ -380,6 +383,46 @@ impl VM {
         Ok(())
     }
 
+    /// Lock the document of the current row before it is written.
+    ///
+    /// The iterator has read the document without a lock, so another
+    /// transaction may have changed or deleted it in the meantime: then
+    /// the newest version is checked against the query again,
+    /// or the row is skipped.
+    ///
+    /// Return false if the execution continues at another place.
+    fn lock_current_row(&mut self) -> Result<bool> {
+        let labels = match self.program.row_labels {
+            Some(labels) => labels,
+            None => return Ok(true),
+        };
+        let key = match self.r1.as_ref().and_then(|cursor| cursor.peek_key()) {
+            Some(key) => key,
+            None => return Ok(true),
+        };
+        if self.locked_row.as_ref() == Some(&key) {
+            return Ok(true);
+        }
+
+        let target = match self.txn.rocksdb_txn.get_for_update(key.as_ref(), true)? {
+            Some(buf) => {
+                self.locked_row = Some(key);
+                let newest = Bson::Document(bson::from_slice(buf.as_slice())?);
+                let top = self.stack.last_mut().unwrap();
+                if *top == newest {
+                    return Ok(true);
+                }
+                *top = newest;
+                labels.check
+            }
+            None => labels.skip,
+        };
+
+        let location = self.program.label_slots[target.u_pos()].position();
+        self.reset_location(location);
+        Ok(false)
+    }
+
     fn update_current(&mut self) -> Result<()> {
         if self.r0 == 0 {
             return Ok(());
@@ -504,6 +547,10 @@ impl VM {
                     }
 
                     DbOp::IncR2 => {
+                        if !try_vm!(self, self.lock_current_row()) {
+                            continue;
+                        }
+
                         self.r2 += 1;
                         self.pc = self.pc.add(1);
                     }
@@ -749,6 +796,10 @@ impl VM {
                     }
 
                     DbOp::DeleteCurrent => {
+                        if !try_vm!(self, self.lock_current_row()) {
+                            continue;
+                        }
+
                         let txn = &self.txn;
                         let deleted = {
                             let cursor = self.r1.as_mut().unwrap();
@@ -776,6 +827,10 @@ impl VM {
                     }
 
                     DbOp::DeleteIndex => {
+                        if !try_vm!(self, self.lock_current_row()) {
+                            continue;
+                        }
+
                         let index_info_id = self.pc.add(1).cast::<u32>().read();
 
                         self.delete_index(index_info_id)?;
-- 
2.43.0


From e1198c16dc8d2de0d2fd774ef99756363e279603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 05/45] fix: lock the specification of a collection while
 writing to it

A document written concurrently to create_index, drop_index or drop was
written with an outdated specification, so it had no entry in the new
index, or outlived its collection. And two transactions that created a
collection at the same time could both succeed.
---
 src/polodb_core/db/db_inner.rs | 153 +++++++++++++++------------------
 1 file changed, 68 insertions(+), 85 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 1c2dfcb..e01973c 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -113,32 +113,54 @@ impl DatabaseInner {
         Ok(entry)
     }
 
-    pub fn get_collection_meta_by_name_advanced_auto(
-        &self,
-        name: &str,
-        create_if_not_exist: bool,
-        txn: &TransactionInner,
-    ) -> Result<Option<CollectionSpecification>> {
-        let result = DatabaseInner::get_collection_meta_by_name_advanced(self, txn, name, create_if_not_exist, &self.node_id)?;
-
-        Ok(result)
-    }
-
-    pub fn get_collection_meta_by_name_advanced(&self, txn: &TransactionInner, name: &str, create_if_not_exist: bool, node_id: &[u8; 6]) -> Result<Option<CollectionSpecification>> {
+    fn find_collection_meta(&self, txn: &TransactionInner, name: &str) -> Result<Option<CollectionSpecification>> {
         match self.internal_get_collection_id_by_name(txn, name) {
             Ok(meta) => Ok(Some(meta)),
-            Err(Error::CollectionNotFound(_)) => {
-                if create_if_not_exist {
-                    let meta = self.internal_create_collection(txn, name, node_id)?;
-                    Ok(Some(meta))
-                } else {
-                    Ok(None)
-                }
-            },
+            Err(Error::CollectionNotFound(_)) => Ok(None),
             Err(err) => Err(err),
         }
     }
 
+    /// Lock the specification of the collection until the end of the transaction,
+    /// and read it.
+    ///
+    /// Whoever writes documents shares the lock, whoever changes the collection itself
+    /// (create, drop, indexes) takes it exclusively. So nobody writes a document with
+    /// an outdated specification: one that misses the entry of a new index for example.
+    fn lock_collection_meta(&self, txn: &TransactionInner, name: &str, exclusive: bool) -> Result<Option<CollectionSpecification>> {
+        let stacked_key = DatabaseInner::collection_meta_key(name)?;
+        match txn.rocksdb_txn.get_for_update(stacked_key.as_slice(), exclusive)? {
+            Some(buf) => Ok(Some(bson::from_slice::<CollectionSpecification>(buf.as_slice())?)),
+            None => Ok(None),
+        }
+    }
+
+    fn lock_collection_meta_for_write(&self, txn: &TransactionInner, name: &str, create_if_not_exist: bool) -> Result<Option<CollectionSpecification>> {
+        // take the exclusive lock at once if the collection is to be created:
+        // two transactions that share the lock can't both get it.
+        if self.find_collection_meta(txn, name)?.is_some() {
+            let meta = self.lock_collection_meta(txn, name, false)?;
+            if meta.is_some() {
+                return Ok(meta);
+            }
+        }
+        if !create_if_not_exist {
+            return Ok(None);
+        }
+        if let Some(meta) = self.lock_collection_meta(txn, name, true)? {
+            return Ok(Some(meta));
+        }
+        let meta = self.internal_create_collection(txn, name, &self.node_id)?;
+        Ok(Some(meta))
+    }
+
+    fn collection_meta_key(name: &str) -> Result<Vec<u8>> {
+        crate::utils::bson::stacked_key(&[
+            Bson::String(TABLE_META_PREFIX.to_string()),
+            Bson::String(name.to_string()),
+        ])
+    }
+
     pub fn create_collection(&self, name: &str) -> Result<CollectionSpecification> {
         DatabaseInner::validate_col_name(name)?;
 
@@ -155,31 +177,18 @@ impl DatabaseInner {
         Ok(meta)
     }
 
-    fn check_collection_exist(&self, txn: &TransactionInner, name: &str) -> Result<bool> {
-        let test_collection = self.internal_get_collection_id_by_name(txn, name);
-        match test_collection {
-            Ok(_) => Ok(true),
-            Err(Error::CollectionNotFound(_)) => Ok(false),
-            Err(err) => Err(err),
-        }
-    }
-
     fn internal_create_collection(&self, txn: &TransactionInner, name: &str, node_id: &[u8; 6]) -> Result<CollectionSpecification> {
         if name.is_empty() {
             return Err(Error::IllegalCollectionName(name.into()));
         }
-        let exist = self.check_collection_exist(txn, name)?;
-        if exist {
+        if self.lock_collection_meta(txn, name, true)?.is_some() {
             return Err(Error::CollectionAlreadyExits(name.into()));
         }
 
         let uuid = uuid::Uuid::now_v1(node_id);
         let spec = CollectionSpecification::new(name.to_string(), uuid);
 
-        let stacked_key = crate::utils::bson::stacked_key(&[
-            Bson::String(TABLE_META_PREFIX.to_string()),
-            Bson::String(name.to_string()),
-        ])?;
+        let stacked_key = DatabaseInner::collection_meta_key(name)?;
 
         let buffer = bson::to_vec(&spec)?;
 
@@ -234,16 +243,12 @@ impl DatabaseInner {
 
         let index_name = DatabaseInner::make_index_name(key, 1, options)?;
 
-        let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
-        let mut collection_spec = match test_collection_spec {
-            Ok(spec) => spec,
-            Err(Error::CollectionNotFound(_)) => {
+        let mut collection_spec = match self.lock_collection_meta(txn, col_name, true)? {
+            Some(spec) => spec,
+            None => {
                 let uuid = uuid::Uuid::now_v1(&self.node_id);
                 CollectionSpecification::new(col_name.to_string(), uuid)
             }
-            Err(err) => {
-                return Err(err);
-            }
         };
 
         if collection_spec.indexes.get(&index_name).is_some() {
@@ -297,15 +302,9 @@ impl DatabaseInner {
     }
 
     fn internal_drop_index(&self, col_name: &str, index_name: &str, txn: &TransactionInner) -> Result<()> {
-        let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
-        let mut collection_spec = match test_collection_spec {
-            Ok(spec) => spec,
-            Err(Error::CollectionNotFound(_)) => {
-                return Ok(());
-            }
-            Err(err) => {
-                return Err(err);
-            }
+        let mut collection_spec = match self.lock_collection_meta(txn, col_name, true)? {
+            Some(spec) => spec,
+            None => return Ok(()),
         };
 
         let index_info = collection_spec.indexes.get(index_name);
@@ -336,10 +335,7 @@ impl DatabaseInner {
     }
 
     fn update_collection_spec(col_name: &str, collection_spec: &CollectionSpecification, txn: &TransactionInner) -> Result<()> {
-        let stacked_key = crate::utils::bson::stacked_key(&[
-            Bson::String(TABLE_META_PREFIX.to_string()),
-            Bson::String(col_name.to_string()),
-        ])?;
+        let stacked_key = DatabaseInner::collection_meta_key(col_name)?;
 
         let buffer = bson::to_vec(&collection_spec)?;
 
@@ -407,13 +403,13 @@ impl DatabaseInner {
     pub fn insert_one(&self, col_name: &str, doc: Document, txn: &TransactionInner) -> Result<InsertOneResult> {
         DatabaseInner::validate_col_name(col_name)?;
 
-        let changed = self.insert_one_internal(txn, col_name, doc, &self.node_id)?;
+        let changed = self.insert_one_internal(txn, col_name, doc)?;
 
         Ok(changed)
     }
 
-    fn insert_one_internal(&self, txn: &TransactionInner, col_name: &str, doc: Document, node_id: &[u8; 6]) -> Result<InsertOneResult> {
-        let col_meta = self.get_collection_meta_by_name_advanced(txn, col_name, true, node_id)?
+    fn insert_one_internal(&self, txn: &TransactionInner, col_name: &str, doc: Document) -> Result<InsertOneResult> {
+        let col_meta = self.lock_collection_meta_for_write(txn, col_name, true)?
             .expect("internal: meta must exist");
         let (result, _) = self.insert_one_with_meta(txn, col_meta, doc)?;
         Ok(result)
@@ -475,7 +471,7 @@ impl DatabaseInner {
     ) -> Result<InsertManyResult> {
         DatabaseInner::validate_col_name(col_name)?;
 
-        let result = self.insert_many_internal(txn, col_name, docs, &self.node_id)?;
+        let result = self.insert_many_internal(txn, col_name, docs)?;
 
         Ok(result)
     }
@@ -485,9 +481,8 @@ impl DatabaseInner {
         txn: &TransactionInner,
         col_name: &str,
         docs: impl IntoIterator<Item = impl Borrow<T>>,
-        node_id: &[u8; 6],
     ) -> Result<InsertManyResult> {
-        let mut col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, node_id)?
+        let mut col_spec = self.lock_collection_meta_for_write(txn, col_name, true)?
             .expect("internal: meta must exist");
         let mut inserted_ids: HashMap<usize, Bson> = HashMap::new();
 
@@ -573,7 +568,7 @@ impl DatabaseInner {
         options: UpdateOptions,
         txn: &TransactionInner,
     ) -> Result<UpdateResult> {
-        let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, false, txn)?;
+        let meta_opt = self.lock_collection_meta_for_write(txn, col_name, false)?;
 
         let result = match &meta_opt {
             Some(col_spec) => {
@@ -633,7 +628,7 @@ impl DatabaseInner {
         let doc = set.as_document().ok_or(Error::SetIsNotADocument)?;
         let merged_doc = DatabaseInner::merge_query_and_update(&query, doc)?;
 
-        let _insert_result = self.insert_one_internal(txn, col_name, merged_doc, &self.node_id)?;
+        let _insert_result = self.insert_one_internal(txn, col_name, merged_doc)?;
 
         Ok(())
     }
@@ -646,11 +641,9 @@ impl DatabaseInner {
     }
 
     fn drop_collection_internal(&self, col_name: &str, txn: &TransactionInner) -> Result<()> {
-        let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
-        let collection_spec = match test_collection_spec {
-            Ok(collection_spec) => collection_spec,
-            Err(Error::CollectionNotFound(_)) => return Ok(()),
-            Err(err) => return Err(err),
+        let collection_spec = match self.lock_collection_meta(txn, col_name, true)? {
+            Some(collection_spec) => collection_spec,
+            None => return Ok(()),
         };
 
         // Delete content begin
@@ -703,7 +696,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
-        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, &self.node_id)?;
+        let col_spec = self.lock_collection_meta_for_write(txn, col_name, true)?;
         if col_spec.is_none() {
             return Ok(0);
         }
@@ -728,11 +721,9 @@ impl DatabaseInner {
     }
 
     fn internal_delete_all(&self, txn: &TransactionInner, col_name: &str) -> Result<usize> {
-        let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
-        let collection_spec = match test_collection_spec {
-            Ok(collection_spec) => collection_spec,
-            Err(Error::CollectionNotFound(_)) => return Ok(0),
-            Err(err) => return Err(err),
+        let collection_spec = match self.lock_collection_meta_for_write(txn, col_name, false)? {
+            Some(collection_spec) => collection_spec,
+            None => return Ok(0),
         };
 
         // Delete content begin
@@ -791,11 +782,7 @@ impl DatabaseInner {
     pub fn count(&self, name: &str, txn: &TransactionInner) -> Result<u64> {
         DatabaseInner::validate_col_name(name)?;
 
-        let col = self.get_collection_meta_by_name_advanced_auto(
-            name,
-            false,
-            txn,
-        )?;
+        let col = self.find_collection_meta(txn, name)?;
         if col.is_none() {
             return Ok(0);
         }
@@ -846,11 +833,7 @@ impl DatabaseInner {
     ) -> Result<ClientCursor<T>> {
         DatabaseInner::validate_col_name(col_name)?;
         let filter_query = filter.into();
-        let meta_opt = self.get_collection_meta_by_name_advanced_auto(
-            col_name,
-            false,
-            &txn,
-        )?;
+        let meta_opt = self.find_collection_meta(&txn, col_name)?;
         let subprogram = match meta_opt {
             Some(col_spec) => {
                 match filter_query {
@@ -938,7 +921,7 @@ impl DatabaseInner {
         txn: TransactionInner,
     ) -> Result<ClientCursor<T>> {
         DatabaseInner::validate_col_name(col_name)?;
-        let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, false, &txn)?;
+        let meta_opt = self.find_collection_meta(&txn, col_name)?;
         let subprogram = match meta_opt {
             Some(col_spec) => {
                 SubProgram::compile_aggregate(
-- 
2.43.0


From 800a38ec06e363703af47e7641ef01905bd387bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 06/45] fix: read everything of a query from one view of the
 data

The entries of an index and their documents were read at different
moments, as was the specification of the collection, so a query through
an index could miss documents that matched all the time, or return
documents that no longer had the queried value.
---
 src/polodb_core/db/db_inner.rs                |  5 +-
 src/polodb_core/db/rocksdb_iterator.rs        | 18 +++++--
 src/polodb_core/db/rocksdb_options.rs         |  6 +++
 src/polodb_core/db/rocksdb_transaction.rs     | 51 ++++++++++++++++++-
 .../transaction/transaction_inner.rs          | 11 ++++
 5 files changed, 84 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index e01973c..7f66c4e 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -782,6 +782,7 @@ impl DatabaseInner {
     pub fn count(&self, name: &str, txn: &TransactionInner) -> Result<u64> {
         DatabaseInner::validate_col_name(name)?;
 
+        let txn = &txn.read_view();
         let col = self.find_collection_meta(txn, name)?;
         if col.is_none() {
             return Ok(0);
@@ -811,7 +812,7 @@ impl DatabaseInner {
                 true
             )?;
 
-            self.make_handle(subprogram, txn.clone())?
+            self.make_handle(subprogram, txn.read_view())?
         };
 
 
@@ -833,6 +834,7 @@ impl DatabaseInner {
     ) -> Result<ClientCursor<T>> {
         DatabaseInner::validate_col_name(col_name)?;
         let filter_query = filter.into();
+        let txn = txn.read_view();
         let meta_opt = self.find_collection_meta(&txn, col_name)?;
         let subprogram = match meta_opt {
             Some(col_spec) => {
@@ -921,6 +923,7 @@ impl DatabaseInner {
         txn: TransactionInner,
     ) -> Result<ClientCursor<T>> {
         DatabaseInner::validate_col_name(col_name)?;
+        let txn = txn.read_view();
         let meta_opt = self.find_collection_meta(&txn, col_name)?;
         let subprogram = match meta_opt {
             Some(col_spec) => {
diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index 10950b7..047b5c1 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -16,7 +16,8 @@ use std::ptr::null_mut;
 use std::sync::Arc;
 use std::sync::atomic::Ordering;
 use libc::c_char;
-use crate::db::rocksdb_transaction::RocksDBTransactionInner;
+use crate::db::rocksdb_options::RocksDBReadOptions;
+use crate::db::rocksdb_transaction::{RocksDBSnapshot, RocksDBTransactionInner};
 use polodb_librocksdb_sys as ffi;
 use super::db::Result;
 
@@ -26,8 +27,8 @@ pub(crate) struct RocksDBIterator {
 }
 
 impl RocksDBIterator {
-    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner) -> RocksDBIterator {
-        let inner = RocksDBIteratorInner::new(txn_inner);
+    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner, snapshot: Option<Arc<RocksDBSnapshot>>) -> RocksDBIterator {
+        let inner = RocksDBIteratorInner::new(txn_inner, snapshot);
         RocksDBIterator {
             inner: Arc::new(inner),
         }
@@ -74,6 +75,8 @@ impl RocksDBIterator {
 pub(crate) struct RocksDBIteratorInner {
     inner: *mut ffi::rocksdb_iterator_t,
     txn_inner: *mut RocksDBTransactionInner,
+    _read_options: RocksDBReadOptions,
+    _snapshot: Option<Arc<RocksDBSnapshot>>,
 }
 
 unsafe impl Send for RocksDBIteratorInner {}
@@ -81,15 +84,20 @@ unsafe impl Sync for RocksDBIteratorInner {}
 
 impl RocksDBIteratorInner {
 
-    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner) -> RocksDBIteratorInner {
+    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner, snapshot: Option<Arc<RocksDBSnapshot>>) -> RocksDBIteratorInner {
         unsafe {
             let txn_ptr = (*txn_inner).inner;
-            let read_options = &(*txn_inner).read_options;
+            let read_options = RocksDBReadOptions::new();
+            if let Some(snapshot) = &snapshot {
+                read_options.set_snapshot(snapshot.get());
+            }
             let iter = ffi::rocksdb_transaction_create_iterator(txn_ptr, read_options.get());
             _ = (*txn_inner).iter_count.fetch_add(1, Ordering::SeqCst);
             RocksDBIteratorInner {
                 inner: iter,
                 txn_inner,
+                _read_options: read_options,
+                _snapshot: snapshot,
             }
         }
     }
diff --git a/src/polodb_core/db/rocksdb_options.rs b/src/polodb_core/db/rocksdb_options.rs
index fc4cf78..738dfbe 100644
--- a/src/polodb_core/db/rocksdb_options.rs
+++ b/src/polodb_core/db/rocksdb_options.rs
@@ -98,6 +98,12 @@ impl RocksDBReadOptions {
         self.inner
     }
 
+    pub(crate) fn set_snapshot(&self, snapshot: *const ffi::rocksdb_snapshot_t) {
+        unsafe {
+            ffi::rocksdb_readoptions_set_snapshot(self.inner, snapshot);
+        }
+    }
+
 }
 
 impl Drop for RocksDBReadOptions {
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 222c331..7fff42f 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -40,6 +40,8 @@ macro_rules! check_err {
 
 #[derive(Clone)]
 pub(crate) struct RocksDBTransaction {
+    // released before the transaction
+    snapshot: Option<Arc<RocksDBSnapshot>>,
     inner: Arc<Mutex<RocksDBTransactionInner>>,
 }
 
@@ -48,13 +50,27 @@ impl RocksDBTransaction {
     pub(crate) fn new(db_inner: *mut RocksDBWrapperInner) -> Result<RocksDBTransaction>  {
         let inner = RocksDBTransactionInner::new(db_inner)?;
         Ok(RocksDBTransaction {
+            snapshot: None,
             inner: Arc::new(Mutex::new(inner)),
         })
     }
 
+    /// The same transaction, but all its iterators read the data that is committed
+    /// at this moment, together with the changes of the transaction itself.
+    pub fn read_view(&self) -> RocksDBTransaction {
+        let snapshot = {
+            let inner = self.inner.lock().unwrap();
+            RocksDBSnapshot::new(inner.db_inner)
+        };
+        RocksDBTransaction {
+            snapshot: Some(Arc::new(snapshot)),
+            inner: self.inner.clone(),
+        }
+    }
+
     pub fn new_iterator(&self) -> RocksDBIterator {
         let mut inner = self.inner.lock().unwrap();
-        RocksDBIterator::new(inner.deref_mut() as *mut RocksDBTransactionInner)
+        RocksDBIterator::new(inner.deref_mut() as *mut RocksDBTransactionInner, self.snapshot.clone())
     }
 
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
@@ -93,6 +109,39 @@ impl RocksDBTransaction {
 
 }
 
+pub(crate) struct RocksDBSnapshot {
+    inner: *const ffi::rocksdb_snapshot_t,
+    db_inner: *mut RocksDBWrapperInner,
+}
+
+unsafe impl Send for RocksDBSnapshot {}
+unsafe impl Sync for RocksDBSnapshot {}
+
+impl RocksDBSnapshot {
+
+    fn new(db_inner: *mut RocksDBWrapperInner) -> RocksDBSnapshot {
+        let inner = unsafe {
+            ffi::rocksdb_transactiondb_create_snapshot((*db_inner).inner)
+        };
+        RocksDBSnapshot { inner, db_inner }
+    }
+
+    pub(crate) fn get(&self) -> *const ffi::rocksdb_snapshot_t {
+        self.inner
+    }
+
+}
+
+impl Drop for RocksDBSnapshot {
+
+    fn drop(&mut self) {
+        unsafe {
+            ffi::rocksdb_transactiondb_release_snapshot((*self.db_inner).inner, self.inner);
+        }
+    }
+
+}
+
 pub(crate) struct RocksDBTransactionInner {
     pub(crate) read_options: RocksDBReadOptions,
     _write_options: RocksDBWriteOptions,
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index dacac74..64a7034 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -29,6 +29,17 @@ impl TransactionInner {
         }
     }
 
+    /// The same transaction, reading the data that is committed at this moment.
+    ///
+    /// Everything that a query reads (the specification of the collection,
+    /// the entries of the index, the documents) has to come from one view.
+    pub fn read_view(&self) -> TransactionInner {
+        TransactionInner {
+            rocksdb_txn: self.rocksdb_txn.read_view(),
+            auto_commit: self.auto_commit,
+        }
+    }
+
     pub fn set_auto_commit(&mut self, auto_commit: bool) {
         self.auto_commit = auto_commit;
     }
-- 
2.43.0


From 80544f7b25edc465b77297504ffde43032685a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 07/45] fix: compare all the conditions of a query, whatever
 plan it gets

- A query by _id or by an index compared its other conditions for equality
  only, so operators, $or and $and never matched, and the first document
  of the index that didn't match ended the iteration.
- Both plans dropped what the stages of a pipeline (so also sort, skip and
  limit) give out at the end.
- The conditions behind an $or were ignored.
---
 src/polodb_core/vm/codegen.rs    | 189 +++++++++++++++++++++----------
 src/polodb_core/vm/subprogram.rs |   3 +
 src/polodb_core/vm/vm.rs         |  72 ++++++------
 3 files changed, 171 insertions(+), 93 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 7666d14..23091bb 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -53,6 +53,15 @@ fn is_all_literal_dollar_document(document: &Document) -> bool {
         .is_some_and(|key| matches!(key.as_str(), "$ref" | "$id" | "$db"))
 }
 
+pub(super) type BeforeClose = Box<dyn FnOnce(&mut Codegen) -> Result<()>>;
+
+/// All the fields have to equal a value, there are no operators
+fn is_simple_query(query: &Document) -> bool {
+    query.iter().all(|(key, value)| {
+        !key.starts_with('$') && !matches!(value, Bson::Document(_) | Bson::Array(_))
+    })
+}
+
 pub(super) struct Codegen {
     program: Box<SubProgram>,
     jump_table: Vec<JumpTableRecord>,
@@ -174,6 +183,7 @@ impl Codegen {
         pkey: Bson,
         query: &Document,
         result_callback: F,
+        before_close: Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -192,32 +202,68 @@ impl Codegen {
 
         self.emit_label(close_label);
         self.emit(DbOp::Pop);
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
+        let mut remain_query = query.clone();
+        remain_query.remove("_id");
+
         self.emit_label(result_label);
-        for (key, value) in query.iter() {
-            if key == "_id" {
-                continue;
-            }
+        self.emit_remain_query(&remain_query, close_label, close_label)?;
+
+        result_callback(self)?;
+
+        self.emit_goto(DbOp::Goto, close_label);
+
+        Ok(())
+    }
 
-            let key_static_id = self.push_static(Bson::String(key.clone()));
-            let value_static_id = self.push_static(value.clone());
+    // Compare the conditions which are not part of the key with the document
+    // on the top of the stack.
+    fn emit_remain_query(
+        &mut self,
+        remain_query: &Document,
+        not_equal_label: Label,
+        not_found_label: Label,
+    ) -> Result<()> {
+        if is_simple_query(remain_query) {
+            for (key, value) in remain_query.iter() {
+                let key_static_id = self.push_static(Bson::String(key.clone()));
+                let value_static_id = self.push_static(value.clone());
 
-            self.emit_goto2(DbOp::GetField, key_static_id, close_label); // push a value1
-            self.emit_push_value(value_static_id); // push a value2
+                self.emit_goto2(DbOp::GetField, key_static_id, not_equal_label); // push a value1
+                self.emit_push_value(value_static_id); // push a value2
 
-            self.emit(DbOp::Equal);
-            // if not equal，go to next
-            self.emit_goto(DbOp::IfFalse, close_label);
+                self.emit(DbOp::Equal);
+                // if not equal，go to next
+                self.emit_goto(DbOp::IfFalse, not_equal_label);
 
-            self.emit(DbOp::Pop); // pop a value2
-            self.emit(DbOp::Pop); // pop a value1
+                self.emit(DbOp::Pop); // pop a value2
+                self.emit(DbOp::Pop); // pop a value1
+            }
+            return Ok(());
         }
 
-        result_callback(self)?;
+        let compare_fun = self.new_label();
+        let compare_fun_clean = self.new_label();
+        let compare_label = self.new_label();
 
-        self.emit_goto(DbOp::Goto, close_label);
+        self.emit_goto(DbOp::Goto, compare_label);
+
+        self.emit_label_with_name(compare_fun, "compare_function");
+        self.emit_standard_query_doc(remain_query, compare_fun_clean, true)?;
+
+        self.emit_label_with_name(compare_fun_clean, "compare_function_clean");
+        self.emit_ret(0);
+
+        self.emit_label_with_name(compare_label, "compare");
+        self.emit(DbOp::Dup);
+        self.emit_goto(DbOp::Call, compare_fun);
+        self.emit_u32(1);
+        self.emit_goto(DbOp::IfFalse, not_found_label);
 
         Ok(())
     }
@@ -227,28 +273,28 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-        before_close: Option<Box<dyn FnOnce(&mut Codegen) -> Result<()>>>,
+        before_close: Option<BeforeClose>,
         is_many: bool,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
-        let try_pkey_result = self.try_query_by_pkey(col_spec, query, result_callback)?;
-        if try_pkey_result.is_none() {
-            return Ok(());
-        }
-
-        let result_callback: F = try_pkey_result.unwrap();
+        let try_pkey_result =
+            self.try_query_by_pkey(col_spec, query, result_callback, before_close)?;
+        let (result_callback, before_close) = match try_pkey_result {
+            Some(callbacks) => callbacks,
+            None => return Ok(()),
+        };
 
-        let try_index_result = self.try_query_by_index(col_spec, query, result_callback)?;
-        if try_index_result.is_none() {
-            return Ok(());
-        }
+        let try_index_result =
+            self.try_query_by_index(col_spec, query, result_callback, before_close)?;
+        let (result_callback, before_close) = match try_index_result {
+            Some(callbacks) => callbacks,
+            None => return Ok(()),
+        };
 
         self.emit_open(col_spec._id.clone().into());
 
-        let result_callback: F = try_index_result.unwrap();
-
         let compare_fun = self.new_label();
         let compare_fun_clean = self.new_label();
         let compare_label = self.new_label();
@@ -307,7 +353,7 @@ impl Codegen {
 
         self.emit_label_with_name(compare_fun, "compare_function");
 
-        self.emit_standard_query_doc(query, result_label, compare_fun_clean)?;
+        self.emit_standard_query_doc(query, compare_fun_clean, true)?;
 
         self.emit_label_with_name(compare_fun_clean, "compare_function_clean");
         self.emit_ret(0);
@@ -320,19 +366,25 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeClose>,
+    ) -> Result<Option<(F, Option<BeforeClose>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if let Some(id_value) = query.get("_id") {
             if id_value.element_type() != ElementType::EmbeddedDocument {
                 self.emit_open(col_spec._id.clone().into());
-                self.emit_query_layout_has_pkey(id_value.clone(), query, result_callback)?;
+                self.emit_query_layout_has_pkey(
+                    id_value.clone(),
+                    query,
+                    result_callback,
+                    before_close,
+                )?;
                 return Ok(None);
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn try_query_by_index<F>(
@@ -340,12 +392,13 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeClose>,
+    ) -> Result<Option<(F, Option<BeforeClose>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if self.is_write {
-            return Ok(Some(result_callback));
+            return Ok(Some((result_callback, before_close)));
         }
 
         let index_meta = &col_spec.indexes;
@@ -366,13 +419,14 @@ impl Codegen {
                         query_doc,
                         &remain_query,
                         result_callback,
+                        before_close,
                     )?;
                     return Ok(None);
                 }
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn indeed_emit_query_by_index<F>(
@@ -382,6 +436,7 @@ impl Codegen {
         query_value: &Bson,
         remain_query: &Document,
         result_callback: F,
+        before_close: Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -422,24 +477,29 @@ impl Codegen {
         self.emit(DbOp::Pop); // pop the collection name
         self.emit(DbOp::Pop); // pop the query value
 
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
-        self.emit_label(result_label);
-        for (key, value) in remain_query.iter() {
-            let key_static_id = self.push_static(Bson::String(key.clone()));
-            let value_static_id = self.push_static(value.clone());
-
-            self.emit_goto2(DbOp::GetField, key_static_id, close_label); // push a value1
-            self.emit_push_value(value_static_id); // push a value2
-
-            self.emit(DbOp::Equal);
-            // if not equal，go to next
-            self.emit_goto(DbOp::IfFalse, close_label);
+        let not_found_label = if is_simple_query(remain_query) {
+            // a row that doesn't match is skipped while looking for the next one
+            self.program.index_filter = remain_query
+                .iter()
+                .map(|(key, value)| (key.clone(), value.clone()))
+                .collect();
+            close_label
+        } else {
+            let not_found_label = self.new_label();
+            self.emit_label_with_name(not_found_label, "not_this_item");
+            self.emit(DbOp::Pop); // pop the current value;
+            self.emit_goto(DbOp::Goto, next_label);
+            not_found_label
+        };
 
-            self.emit(DbOp::Pop); // pop a value2
-            self.emit(DbOp::Pop); // pop a value1
-        }
+        self.emit_label(result_label);
+        self.emit_remain_query(remain_query, close_label, not_found_label)?;
 
         result_callback(self)?;
 
@@ -451,17 +511,18 @@ impl Codegen {
     fn emit_standard_query_doc(
         &mut self,
         query_doc: &Document,
-        result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if query_doc.is_empty() {
             self.emit(DbOp::StoreR0_2);
             self.emit_u8(1);
             return Ok(());
         }
-        for (key, value) in query_doc.iter() {
+        let last = query_doc.len() - 1;
+        for (index, (key, value)) in query_doc.iter().enumerate() {
             crate::path_hint!(self, key.clone(), {
-                self.emit_query_tuple(key, value, result_label, not_found_label)?;
+                self.emit_query_tuple(key, value, not_found_label, is_tail && index == last)?;
             });
         }
 
@@ -487,21 +548,24 @@ impl Codegen {
     fn emit_logic_and(
         &mut self,
         arr: &Array,
-        result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         for (index, item_doc_value) in arr.iter().enumerate() {
             let path_msg = format!("[{}]", index);
             crate::path_hint!(self, path_msg, {
                 let item_doc = crate::try_unwrap_document!("$and", item_doc_value);
-                self.emit_standard_query_doc(item_doc, result_label, not_found_label)?;
+                let is_tail = is_tail && index == arr.len() - 1;
+                self.emit_standard_query_doc(item_doc, not_found_label, is_tail)?;
             });
         }
 
         Ok(())
     }
 
-    fn emit_logic_or(&mut self, arr: &Array, ret_label: Label) -> Result<()> {
+    // is_tail: nothing is left to be compared after the $or,
+    // otherwise the execution goes on behind it if one of the items matches.
+    fn emit_logic_or(&mut self, arr: &Array, ret_label: Label, is_tail: bool) -> Result<()> {
         let cmp_label = self.new_label();
         self.emit_goto(DbOp::Goto, cmp_label);
 
@@ -515,7 +579,7 @@ impl Codegen {
                 let ret_label = self.new_label();
 
                 self.emit_label(query_label);
-                self.emit_standard_query_doc(item_doc, ret_label, ret_label)?;
+                self.emit_standard_query_doc(item_doc, ret_label, true)?;
 
                 self.emit_label(ret_label);
                 self.emit_ret(0);
@@ -525,10 +589,15 @@ impl Codegen {
         }
 
         self.emit_label(cmp_label);
+        let found_label = if is_tail { ret_label } else { self.new_label() };
         for fun in functions {
             self.emit_goto(DbOp::Call, fun);
             self.emit_u32(0);
-            self.emit_goto(DbOp::IfTrue, ret_label);
+            self.emit_goto(DbOp::IfTrue, found_label);
+        }
+        if !is_tail {
+            self.emit_goto(DbOp::Goto, ret_label);
+            self.emit_label(found_label);
         }
 
         Ok(())
@@ -540,19 +609,19 @@ impl Codegen {
         &mut self,
         key: &str,
         value: &Bson,
-        result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if key.starts_with('$') {
             match key {
                 "$and" => {
                     let sub_arr = crate::try_unwrap_array!("$and", value);
-                    self.emit_logic_and(sub_arr.as_ref(), result_label, not_found_label)?;
+                    self.emit_logic_and(sub_arr.as_ref(), not_found_label, is_tail)?;
                 }
 
                 "$or" => {
                     let sub_arr = crate::try_unwrap_array!("$or", value);
-                    self.emit_logic_or(sub_arr.as_ref(), not_found_label)?;
+                    self.emit_logic_or(sub_arr.as_ref(), not_found_label, is_tail)?;
                 }
 
                 _ => {
diff --git a/src/polodb_core/vm/subprogram.rs b/src/polodb_core/vm/subprogram.rs
index 09ec2a2..344e53c 100644
--- a/src/polodb_core/vm/subprogram.rs
+++ b/src/polodb_core/vm/subprogram.rs
@@ -54,6 +54,8 @@ pub(crate) struct SubProgram {
     pub(crate) external_funcs: Vec<Box<dyn VmExternalFunc>>,
     pub(crate) update_operators: Vec<Box<dyn UpdateOperator>>,
     pub(super) row_labels: Option<RowLabels>,
+    /// The fields of a row found through an index have to equal these values
+    pub(super) index_filter: Vec<(String, Bson)>,
 }
 
 impl SubProgram {
@@ -67,6 +69,7 @@ impl SubProgram {
             external_funcs: Vec::new(),
             update_operators: Vec::new(),
             row_labels: None,
+            index_filter: Vec::new(),
         }
     }
 
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 6571384..8b89e9b 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -187,22 +187,52 @@ impl VM {
         let result = cursor.reset_by_index_value(query_value)?;
         self.index_value = Some(query_value.clone());
 
-        if !result {
+        if !result || !self.read_index_row()? {
             return Ok(false);
         }
 
-        let key = cursor.peek_key().expect("key must exist");
+        self.metrics.add_find_by_index_count();
 
-        let index_value = self.read_index_value_by_index_key(key.as_ref())?;
+        Ok(true)
+    }
 
-        if index_value.is_none() {
-            return Ok(false);
-        }
+    /// Push the document of the current entry of the index,
+    /// or of the next entry of the same value whose document matches.
+    fn read_index_row(&mut self) -> Result<bool> {
+        let key_buffer = {
+            let index_value = self.index_value.as_ref().expect("index_value must exist");
+            let cursor = self.r1.as_ref().unwrap();
+            make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?
+        };
 
-        self.stack.push(index_value.unwrap());
+        loop {
+            let current_key = match self.r1.as_ref().unwrap().peek_key() {
+                Some(key) if key.starts_with(key_buffer.as_slice()) => key,
+                _ => return Ok(false),
+            };
 
-        self.metrics.add_find_by_index_count();
+            if let Some(value) = self.read_index_value_by_index_key(current_key.as_ref())? {
+                if self.match_index_filter(&value)? {
+                    self.stack.push(value);
+                    return Ok(true);
+                }
+            }
+
+            self.r1.as_mut().unwrap().next()?;
+        }
+    }
 
+    fn match_index_filter(&self, value: &Bson) -> Result<bool> {
+        let doc = value.as_document().unwrap();
+        for (key, expected) in &self.program.index_filter {
+            let matches = match crate::utils::bson::try_get_document_value(doc, key) {
+                Some(actual) => generic_cmp(DbOp::Equal, &actual, expected)?,
+                None => false,
+            };
+            if !matches {
+                return Ok(false);
+            }
+        }
         Ok(true)
     }
 
@@ -261,32 +291,8 @@ impl VM {
     fn next_index_value(&mut self) -> Result<()> {
         let cursor = self.r1.as_mut().unwrap();
         cursor.next()?;
-        let current_key = cursor.peek_key();
-        if current_key.is_none() {
-            self.r0 = 0;
-            return Ok(());
-        }
-
-        let index_value = self.index_value.as_ref().expect("index_value must exist");
-
-        let key_buffer =
-            make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
-
-        let current_key = current_key.unwrap();
-        if !current_key.starts_with(key_buffer.as_slice()) {
-            self.r0 = 0;
-            return Ok(());
-        }
-
-        let value_opt = self.read_index_value_by_index_key(current_key.as_ref())?;
-        if value_opt.is_none() {
-            self.r0 = 0;
-            return Ok(());
-        }
-
-        self.stack.push(value_opt.unwrap());
 
-        self.r0 = 1;
+        self.r0 = i32::from(self.read_index_row()?);
 
         Ok(())
     }
-- 
2.43.0


From e0fd65ab77c751e695eccc513bf809eae171653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 08/45] fix: find equal numbers of all types through an index

{ a: 1 } matches the documents with an Int32, an Int64 or a Double, but
only those of the same type if there was an index on the field.
---
 src/polodb_core/index/index_helper.rs | 22 ++++++++++++++++++++++
 src/polodb_core/index/mod.rs          |  2 +-
 src/polodb_core/vm/codegen.rs         |  3 ++-
 src/polodb_core/vm/vm.rs              | 27 ++++++++++++++++++++++-----
 4 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 58314da..ebbc25a 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use std::convert::TryFrom;
 use bson::{Bson, Document};
 use bson::spec::ElementType;
 use crate::Result;
@@ -49,6 +50,27 @@ pub(crate) fn make_index_key_with_query_key(prefix_bytes: &[u8], query_value: &B
     Ok(key_buffer)
 }
 
+/// The values with another type which equal the number: see `value_cmp`
+pub(crate) fn equal_numbers(value: &Bson) -> Vec<Bson> {
+    const MAX_SAFE: f64 = 9007199254740992.0;
+
+    let (int, double) = match value {
+        Bson::Int32(i) => (*i as i64, *i as f64),
+        Bson::Int64(i) => (*i, *i as f64),
+        Bson::Double(d) if d.fract() == 0.0 && d.abs() <= MAX_SAFE && d.to_bits() != (-0.0_f64).to_bits() => {
+            (*d as i64, *d)
+        }
+        _ => return vec![],
+    };
+
+    let mut result = vec![Bson::Double(double), Bson::Int64(int)];
+    if let Ok(int32) = i32::try_from(int) {
+        result.push(Bson::Int32(int32));
+    }
+    result.retain(|item| item.element_type() != value.element_type());
+    result
+}
+
 impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
 
     #[inline]
diff --git a/src/polodb_core/index/mod.rs b/src/polodb_core/index/mod.rs
index 308d8e3..6c7cfd0 100644
--- a/src/polodb_core/index/mod.rs
+++ b/src/polodb_core/index/mod.rs
@@ -16,6 +16,6 @@ mod index_helper;
 mod index_model;
 mod index_builder;
 
-pub(crate) use index_helper::{IndexHelper, IndexHelperOperation, INDEX_PREFIX, make_index_key_with_query_key};
+pub(crate) use index_helper::{IndexHelper, IndexHelperOperation, INDEX_PREFIX, make_index_key_with_query_key, equal_numbers};
 pub(crate) use index_builder::IndexBuilder;
 pub use index_model::{IndexModel, IndexOptions};
diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 23091bb..38d5cf2 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -409,7 +409,8 @@ impl Codegen {
             // { "a.b.c": 1 }
             let test_result = query.get(key);
             if let Some(query_doc) = test_result {
-                if query_doc.element_type() != ElementType::EmbeddedDocument {
+                // only these values have entries in the index
+                if crate::utils::bson::stacked_key([query_doc]).is_ok() {
                     let mut remain_query = query.clone();
                     remain_query.remove(key);
 
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 8b89e9b..bf12bbd 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -14,7 +14,7 @@
 
 use crate::cursor::Cursor;
 use crate::errors::{FieldTypeUnexpectedStruct, UnexpectedTypeForOpStruct};
-use crate::index::{make_index_key_with_query_key, IndexHelper, IndexHelperOperation};
+use crate::index::{equal_numbers, make_index_key_with_query_key, IndexHelper, IndexHelperOperation};
 use crate::transaction::TransactionInner;
 use crate::vm::op::{generic_cmp, DbOp};
 use crate::vm::query_matcher::{field_path_value, matches_all, matches_in, matches_regex};
@@ -77,6 +77,7 @@ pub(crate) struct VM {
     pub(crate) program: SubProgram,
     global_vars: Vec<Bson>,
     index_value: Option<Bson>,
+    equal_index_values: Vec<Bson>,
     locked_row: Option<Arc<[u8]>>,
     metrics: Metrics,
 }
@@ -108,6 +109,7 @@ impl VM {
             program,
             global_vars,
             index_value: None,
+            equal_index_values: Vec::new(),
             locked_row: None,
             metrics,
         }
@@ -181,13 +183,14 @@ impl VM {
     fn find_by_index(&mut self) -> Result<bool> {
         let stack_len = self.stack.len();
         // let col_name = self.stack[stack_len - 1].as_str().expect("col_name must be string").to_string();
-        let query_value = &self.stack[stack_len - 2];
+        let query_value = self.stack[stack_len - 2].clone();
 
         let cursor = self.r1.as_mut().unwrap();
-        let result = cursor.reset_by_index_value(query_value)?;
-        self.index_value = Some(query_value.clone());
+        cursor.reset_by_index_value(&query_value)?;
+        self.equal_index_values = equal_numbers(&query_value);
+        self.index_value = Some(query_value);
 
-        if !result || !self.read_index_row()? {
+        if !self.read_index_row()? {
             return Ok(false);
         }
 
@@ -199,6 +202,20 @@ impl VM {
     /// Push the document of the current entry of the index,
     /// or of the next entry of the same value whose document matches.
     fn read_index_row(&mut self) -> Result<bool> {
+        while !self.read_index_row_of_value()? {
+            // numbers of different types can be equal
+            match self.equal_index_values.pop() {
+                Some(value) => {
+                    self.r1.as_mut().unwrap().reset_by_index_value(&value)?;
+                    self.index_value = Some(value);
+                }
+                None => return Ok(false),
+            }
+        }
+        Ok(true)
+    }
+
+    fn read_index_row_of_value(&mut self) -> Result<bool> {
         let key_buffer = {
             let index_value = self.index_value.as_ref().expect("index_value must exist");
             let cursor = self.r1.as_ref().unwrap();
-- 
2.43.0


From 08f0bbbf13145aa73dc63a7b9acb4f4693cf4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 09/45] fix: write a document that any of the update operators
 changed

Only the result of the last operator decided if the document was written,
so { $inc: ..., $max: ... } lost the increment if the maximum was the same.
---
 src/polodb_core/vm/vm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index bf12bbd..1b90538 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -1034,7 +1034,9 @@ impl VM {
 
                         let result = try_vm!(self, operator.update(self.stack.last_mut().unwrap()));
 
-                        self.r0 = if result.updated { 1 } else { 0 };
+                        if result.updated {
+                            self.r0 = 1;
+                        }
 
                         self.pc = self.pc.add(5);
                     }
-- 
2.43.0


From 28f078e58d52e3b9b9cc64348c875e04c2345c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 10/45] fix: don't overflow in $inc, $mul and $abs

An Int32 becomes an Int64, an Int64 that overflows is an error. Before,
the operation panicked, or wrapped around in a release build.
---
 src/polodb_core/vm/operators/abs_operator.rs  | 25 ++++++++-----------
 .../vm/update_operators/inc_operator.rs       | 15 ++++++++---
 .../vm/update_operators/mul_operator.rs       | 17 +++++++++----
 3 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index 4a48ab5..2827e4a 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -24,14 +24,14 @@ impl AbsOperator {
 
     fn bson_abs(input: Bson) -> Bson {
         match input {
-            Bson::Int32(v) => {
-                let result = v.abs();
-                Bson::Int32(result)
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                Bson::Int64(result)
-            }
+            Bson::Int32(v) => match v.checked_abs() {
+                Some(result) => Bson::Int32(result),
+                None => Bson::Int64((v as i64).abs()),
+            },
+            Bson::Int64(v) => match v.checked_abs() {
+                Some(result) => Bson::Int64(result),
+                None => Bson::Double((v as f64).abs()),
+            },
             _ => input,
         }
     }
@@ -45,13 +45,8 @@ impl AbsOperator {
             Bson::Null => {
                 OperatorExpr::Constant(Bson::Null)
             }
-            Bson::Int32(v) => {
-               let result = v.abs();
-                OperatorExpr::Constant(Bson::Int32(result))
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                OperatorExpr::Constant(Bson::Int64(result))
+            Bson::Int32(_) | Bson::Int64(_) => {
+                OperatorExpr::Constant(Self::bson_abs(v.clone()))
             }
             Bson::String(field_name) => {
                 if let Some(stripped_field_name) = field_name.strip_prefix("$") {
diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index bd2ff6b..a8e6695 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -16,13 +16,20 @@ impl IncOperator {
         })
     }
 
+    fn inc_i64(a: i64, b: i64) -> Result<Bson> {
+        a.checked_add(b).map(Bson::Int64).ok_or(Error::DataOverflow)
+    }
+
     fn inc_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a + *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 + *b),
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_add(*b) {
+                Some(sum) => Bson::Int32(sum),
+                None => Bson::Int64(*a as i64 + *b as i64),
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => IncOperator::inc_i64(*a as i64, *b)?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a + *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a + *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => IncOperator::inc_i64(*a, *b)?,
+            (Bson::Int64(a), Bson::Int32(b)) => IncOperator::inc_i64(*a, *b as i64)?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a + *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a + *b as f64),
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index 21e391d..369c9f7 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::CannotApplyOperationForTypes;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct MulOperator {
     doc: Document
@@ -16,13 +16,20 @@ impl MulOperator {
         })
     }
 
+    fn mul_i64(a: i64, b: i64) -> Result<Bson> {
+        a.checked_mul(b).map(Bson::Int64).ok_or(Error::DataOverflow)
+    }
+
     fn mul_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a * *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 * *b),
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_mul(*b) {
+                Some(product) => Bson::Int32(product),
+                None => Bson::Int64(*a as i64 * *b as i64),
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => MulOperator::mul_i64(*a as i64, *b)?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a * *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a * *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => MulOperator::mul_i64(*a, *b)?,
+            (Bson::Int64(a), Bson::Int32(b)) => MulOperator::mul_i64(*a, *b as i64)?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a * *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a * *b as f64),
-- 
2.43.0


From 177498698e362ffe5c9327971f3de2bf69910c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 11/45] fix: reject $unset, $rename and $pop of the primary key

They wrote a document whose _id was missing or not the one of its key,
and the next update of a collection with an index panicked.
---
 src/polodb_core/vm/update_operators/pop_operator.rs    |  1 +
 src/polodb_core/vm/update_operators/rename_operator.rs | 10 +++++++---
 src/polodb_core/vm/update_operators/unset_operator.rs  |  1 +
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/pop_operator.rs b/src/polodb_core/vm/update_operators/pop_operator.rs
index d2a9cbd..51bbcd9 100644
--- a/src/polodb_core/vm/update_operators/pop_operator.rs
+++ b/src/polodb_core/vm/update_operators/pop_operator.rs
@@ -11,6 +11,7 @@ pub(crate) struct PopOperator {
 impl PopOperator {
 
     pub fn compile(doc: Document, name: String, path: String) -> Result<PopOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         let mut pop_map = IndexMap::new();
         for (key, value) in doc.iter() {
             let num = match value {
diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index f31adb5..30f417b 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::FieldTypeUnexpectedStruct;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct RenameOperator {
     doc: Document
@@ -10,9 +10,13 @@ pub(crate) struct RenameOperator {
 impl RenameOperator {
 
     pub fn compile(doc: Document) -> Result<RenameOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         for (key, value) in doc.iter() {
-            let _new_name = match value {
-                Bson::String(new_name) => new_name.as_str(),
+            match value {
+                Bson::String(new_name) if new_name == "_id" => {
+                    return Err(Error::UnableToUpdatePrimaryKey);
+                }
+                Bson::String(_) => (),
                 t => {
                     let name = format!("{}", t);
                     return Err(FieldTypeUnexpectedStruct {
diff --git a/src/polodb_core/vm/update_operators/unset_operator.rs b/src/polodb_core/vm/update_operators/unset_operator.rs
index 2b5d9c5..2800a89 100644
--- a/src/polodb_core/vm/update_operators/unset_operator.rs
+++ b/src/polodb_core/vm/update_operators/unset_operator.rs
@@ -9,6 +9,7 @@ pub(crate) struct UnsetOperator {
 impl UnsetOperator {
 
     pub fn compile(doc: &Document) -> Result<UnsetOperator> {
+        <dyn UpdateOperator>::validate_key(doc)?;
         let fields = doc.keys().map(|k| k.to_string()).collect();
         Ok(UnsetOperator {
             fields
-- 
2.43.0


From b1313a150959abcae10d2106a0e72e2c911cc4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 12/45] fix: sort by the keys in their order, and without a
 panic

- The keys of $sort were compared in the random order of a hash map.
- A value that can't be compared, or the inconsistent order of numbers and
  other types, made the sort panic.
---
 src/polodb_core/utils/bson.rs | 18 ++++++++++++++++++
 src/polodb_core/vm/vm_sort.rs | 27 ++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index a5cd629..fbbc9bb 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -223,6 +223,24 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
     }
 }
 
+/// A total order to sort the values of a field: numbers of all types are ordered by
+/// their value, and come before the other types.
+///
+/// `value_cmp` is none: a string is greater than a double, but less than an integer.
+pub fn sort_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
+    fn rank(value: &Bson) -> u8 {
+        match value {
+            Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) => ElementType::Double as u8,
+            _ => value.element_type() as u8,
+        }
+    }
+
+    match rank(a).cmp(&rank(b)) {
+        Ordering::Equal => value_cmp(a, b),
+        result => Ok(result),
+    }
+}
+
 pub fn try_get_document_value(doc: &Document, key: &str) -> Option<Bson> {
     let keys = key.split('.').collect::<Vec<&str>>();
     let keys_slice = keys.as_slice();
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index a722904..87e9dba 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -13,15 +13,15 @@
 // limitations under the License.
 
 use std::cell::RefCell;
-use std::collections::HashMap;
 use std::sync::atomic::AtomicUsize;
 use bson::{Bson, Document};
+use indexmap::IndexMap;
 use crate::vm::vm_external_func::{VmExternalFunc, VmExternalFuncStatus};
 use crate::{Result, Error};
 use crate::errors::mk_invalid_aggregate_field;
 
 pub(crate) struct VmFuncSort {
-    order_map: HashMap<String, i8>,
+    order_map: IndexMap<String, i8>,
     buffer: RefCell<Vec<Document>>,
     idx: AtomicUsize,
 }
@@ -30,7 +30,7 @@ impl VmFuncSort {
     pub(crate) fn compile(paths: &mut Vec<String>, val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let order_map = match val {
             Bson::Document(doc) => {
-                let mut result = HashMap::default();
+                let mut result = IndexMap::new();
                 for (k, v) in doc.iter() {
                     let order = match v {
                         Bson::Int32(val) => *val as i8,
@@ -62,15 +62,22 @@ impl VmFuncSort {
         }
     }
 
-    fn sort_array(&self) {
+    fn sort_array(&self) -> Result<()> {
         let mut array = self.buffer.borrow_mut();
+        let mut error = None;
         array.sort_by(|a, b| {
             for (k, v) in self.order_map.iter() {
                 let a_val = a.get(k);
                 let b_val = b.get(k);
                 match (a_val, b_val) {
                     (Some(a_val), Some(b_val)) => {
-                        let result =  crate::utils::bson::value_cmp(a_val, b_val).expect("Invalid sort value");
+                        let result = match crate::utils::bson::sort_cmp(a_val, b_val) {
+                            Ok(result) => result,
+                            Err(err) => {
+                                error = Some(err);
+                                std::cmp::Ordering::Equal
+                            }
+                        };
                         match result {
                             std::cmp::Ordering::Equal => continue,
                             std::cmp::Ordering::Less => return Self::i8_to_ordering(*v),
@@ -84,6 +91,10 @@ impl VmFuncSort {
             }
             std::cmp::Ordering::Equal
         });
+        match error {
+            Some(err) => Err(err.into()),
+            None => Ok(()),
+        }
     }
 }
 
@@ -101,9 +112,11 @@ impl VmExternalFunc for VmFuncSort {
                 Ok(VmExternalFuncStatus::Continue)
             }
             Bson::Null => {
-                self.sort_array();
+                let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+                if idx == 0 {
+                    self.sort_array()?;
+                }
                 let next = {
-                    let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                     let buffer = self.buffer.borrow();
                     if idx >= buffer.len() {
                         Bson::Null
-- 
2.43.0


From 96d41357ef89e8a5249823285e73f6c2a59e40a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 13/45] fix: tell each stage of a pipeline the end of its input
 once

A stage passed the end on to the next one, which then got it a second time
(and for each document behind a $limit), so $count, $group and $sort gave
out their results too early and more than once. An empty stage panicked.
---
 src/polodb_core/vm/codegen.rs       |  2 +-
 src/polodb_core/vm/vm_add_fields.rs |  2 +-
 src/polodb_core/vm/vm_limit.rs      |  4 ++--
 src/polodb_core/vm/vm_skip.rs       |  2 +-
 src/polodb_core/vm/vm_sort.rs       | 14 +++++---------
 src/polodb_core/vm/vm_unset.rs      |  2 +-
 6 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 38d5cf2..9cc556e 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -1149,7 +1149,7 @@ impl Codegen {
     ) -> Result<()> {
         for stage_doc in pipeline {
             if stage_doc.is_empty() {
-                return Ok(());
+                return Err(Error::InvalidAggregationStage(Box::new(stage_doc.clone())));
             }
 
             let label = self.new_label();
diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index 58a3b9f..b4ce2fb 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -70,7 +70,7 @@ impl VmExternalFunc for VmFuncAddFields {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 54285fb..6e21b2a 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -49,11 +49,11 @@ impl VmExternalFunc for VmFuncLimit {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
-            0 => Ok(VmExternalFuncStatus::Next(Bson::Null)),
+            0 => Ok(VmExternalFuncStatus::Continue),
             _ => {
                 self.remain.fetch_sub(1, Ordering::Relaxed);
                 Ok(VmExternalFuncStatus::Next(args[0].clone()))
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 6a08003..0215739 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -49,7 +49,7 @@ impl VmExternalFunc for VmFuncSkip {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index 87e9dba..599bda5 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -116,15 +116,11 @@ impl VmExternalFunc for VmFuncSort {
                 if idx == 0 {
                     self.sort_array()?;
                 }
-                let next = {
-                    let buffer = self.buffer.borrow();
-                    if idx >= buffer.len() {
-                        Bson::Null
-                    } else {
-                        buffer[idx].clone().into()
-                    }
-                };
-                Ok(VmExternalFuncStatus::Next(next))
+                let buffer = self.buffer.borrow();
+                match buffer.get(idx) {
+                    Some(doc) => Ok(VmExternalFuncStatus::Next(doc.clone().into())),
+                    None => Ok(VmExternalFuncStatus::Continue),
+                }
             }
             _ => {
                 Err(Error::ValidationError("Invalid sort value".into()))
diff --git a/src/polodb_core/vm/vm_unset.rs b/src/polodb_core/vm/vm_unset.rs
index 1b2126e..b41461c 100644
--- a/src/polodb_core/vm/vm_unset.rs
+++ b/src/polodb_core/vm/vm_unset.rs
@@ -57,7 +57,7 @@ impl VmExternalFunc for VmFuncUnset {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
-- 
2.43.0


From 28b83f4340cf33f16065661198a55ae3f586e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 14/45] fix: $ne matches the documents whose value is not equal

It matched those whose value is equal.
---
 src/polodb_core/vm/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 9cc556e..7b6af61 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -838,11 +838,11 @@ impl Codegen {
             }
 
             "$ne" => {
-                let field_size = self.get_field(key, not_found_label);
+                let field_size = self.get_field_or_null(key);
 
                 let stat_val_id = self.push_static(sub_value.clone());
                 self.emit_push_value(stat_val_id);
-                self.emit_logical(DbOp::Equal, is_in_not);
+                self.emit_logical(DbOp::Equal, !is_in_not);
 
                 // if equal，go to next
                 self.emit_goto(DbOp::IfFalse, not_found_label);
-- 
2.43.0


From 37a023bb62c51a23a56429df2473ac63635440a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 15/45] fix: match $regex with the string, not with the quotes
 around it

So that ^ and $ can match.
---
 src/polodb_core/vm/query_matcher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/query_matcher.rs b/src/polodb_core/vm/query_matcher.rs
index df76a3a..70b708c 100644
--- a/src/polodb_core/vm/query_matcher.rs
+++ b/src/polodb_core/vm/query_matcher.rs
@@ -55,7 +55,11 @@ pub(super) fn validate_membership_candidates(candidates: &[Bson]) -> Result<()>
 
 pub(super) fn matches_regex(field_value: &Bson, expression: &Regex) -> Result<bool> {
     let regex = compile_regex(expression)?;
-    Ok(regex.is_match(&field_value.to_string()))
+    match field_value {
+        // without the quotes of its representation
+        Bson::String(value) | Bson::Symbol(value) => Ok(regex.is_match(value)),
+        _ => Ok(regex.is_match(&field_value.to_string())),
+    }
 }
 
 fn matches_compiled_regex(field_value: &Bson, regex: &CompiledRegex) -> bool {
-- 
2.43.0


From 366123a14e47c84012a90370e55374e8af4c4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 16/45] fix: reject names with a NUL character

It ends the name in a key, so the documents of a collection "a\0..." were
documents of the collection "a" as well.
---
 src/polodb_core/db/db_inner.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 7f66c4e..64d6593 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -382,7 +382,8 @@ impl DatabaseInner {
 
     fn validate_col_name(col_name: &str) -> Result<()> {
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            // '\0' ends the name in the keys
+            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' || ch == '\0' {
                 return Err(Error::IllegalCollectionName(col_name.to_string()))
             }
         }
@@ -392,7 +393,7 @@ impl DatabaseInner {
 
     fn validate_index_name(col_name: &str) -> Result<()> {
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' || ch == '\0' {
                 return Err(Error::IllegalIndexName(col_name.to_string()))
             }
         }
-- 
2.43.0


From 962e6ca7c205e41bc3c9c08af25896d9abb34b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:44 +0000
Subject: [PATCH 17/45] fix: $size leaves nothing on the stack of the query
 program

---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 7b6af61..cf3718f 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -888,7 +888,7 @@ impl Codegen {
                 self.emit_goto(DbOp::IfFalse, not_found_label);
 
                 self.emit(DbOp::Pop2);
-                self.emit_u32((field_size + 1) as u32);
+                self.emit_u32((field_size + 2) as u32); // the array, its size and the expected size
             }
 
             "$regex" => {
-- 
2.43.0


From 4d04cf167c5bcd94f1738a35848b26f083b74e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:44 +0000
Subject: [PATCH 18/45] fix: retire old logs when opening, so that a torn one
 does no harm at the next opening

---
 src/polodb_core/db/rocksdb_wrapper.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/polodb_core/db/rocksdb_wrapper.rs b/src/polodb_core/db/rocksdb_wrapper.rs
index b930d46..b55c85e 100644
--- a/src/polodb_core/db/rocksdb_wrapper.rs
+++ b/src/polodb_core/db/rocksdb_wrapper.rs
@@ -81,6 +81,16 @@ impl RocksDBWrapperInner {
             ffi::rocksdb_options_set_create_if_missing(options, 1);
             let mut err: *mut c_char = ptr::null_mut();
             let path_c = CString::new(path.clone()).unwrap();
+            if Path::new(&path).join("CURRENT").exists() {
+                // A crash can tear the unacknowledged end of a log. Opened for
+                // transactions (that is, for two-phase commit), RocksDB keeps such a
+                // log after the recovery, and after a second crash it refuses to open
+                // the database or drops the commits of the newer logs. A recovery
+                // without transactions retires the old logs.
+                let db = ffi::rocksdb_open(options, path_c.as_ptr(), &mut err);
+                check_err!(err);
+                ffi::rocksdb_close(db);
+            }
             let db = ffi::rocksdb_transactiondb_open(options, txn_db_opts, path_c.as_ptr(), &mut err);
             check_err!(err);
             Ok(RocksDBWrapperInner {
-- 
2.43.0


From dc2b0220fe940cbabbeb4f9e8e4f36031b615527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 19/45] fix: send the flags of a reply in their place

---
 src/polodb/reply.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/polodb/reply.rs b/src/polodb/reply.rs
index 448a11f..d7a8a2b 100644
--- a/src/polodb/reply.rs
+++ b/src/polodb/reply.rs
@@ -27,11 +27,10 @@ impl Reply {
 
     pub(crate) fn new(response_to: i32, doc: RawDocumentBuf) -> Reply {
         const SINGLE_DOC_KIND: u8 = 0;
+        const FLAGS: u32 = 0;
         let mut payload = Vec::with_capacity(doc.as_bytes().len() + 5);
-        std::io::Write::write_all(&mut payload, [SINGLE_DOC_KIND].as_slice()).unwrap();
-
-        let doc_len = doc.as_bytes().len() as u32;
-        std::io::Write::write_all(&mut payload, doc_len.to_le_bytes().as_slice()).unwrap();
+        payload.extend_from_slice(FLAGS.to_le_bytes().as_slice());
+        payload.push(SINGLE_DOC_KIND);
 
         payload.extend_from_slice(doc.as_bytes());
 
-- 
2.43.0


From 9d4934ae18bdb3cf3190bf8695f7373b415d458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 20/45] fix: answer a find command by its own request id

---
 src/polodb/handlers/find_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 914acf6..2f4ef5b 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -176,7 +176,7 @@ impl Handler for FindHandler {
             "ok": 1,
             "cursor": cursor_doc,
         };
-        let reply = Reply::new(ctx.message.response_to, body);
+        let reply = Reply::new(ctx.message.request_id.unwrap(), body);
         debug!("find reply: {:?}", reply);
         Ok(reply)
     }
-- 
2.43.0


From 4d5ecf8b0d11485ab0b87c7dc7da9414c4ecf68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 21/45] fix: recognise the hello command

---
 src/polodb/handlers/hello_handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polodb/handlers/hello_handler.rs b/src/polodb/handlers/hello_handler.rs
index a966d93..c6641b5 100644
--- a/src/polodb/handlers/hello_handler.rs
+++ b/src/polodb/handlers/hello_handler.rs
@@ -33,7 +33,8 @@ impl HelloHandler {
 #[async_trait]
 impl Handler for HelloHandler {
     fn test(&self, doc: &RawDocumentBuf) -> Result<bool> {
-        Ok(doc.get("helloOk")?.is_some()
+        Ok(doc.get("hello")?.is_some()
+            || doc.get("helloOk")?.is_some()
             || doc.get("ismaster")?.is_some()
             || doc.get("isMaster")?.is_some())
     }
-- 
2.43.0


From 7051d74017aaf3b3e0fda52f89abf4dd7600924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 22/45] fix: answer a command with an error instead of closing
 the connection

---
 src/polodb/handlers/delete_handler.rs |  2 +-
 src/polodb/main.rs                    | 39 +++++++++++++--------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index bc217e5..3908329 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -65,7 +65,7 @@ impl Handler for DeleteHandler {
         let doc = &ctx.message.document_payload;
         let collection_name = doc.get("delete")?.unwrap().as_str().ok_or(anyhow!("delete field is not a string"))?;
 
-        let deletes_arr = doc.get("deletes")?.unwrap().as_array().ok_or(anyhow!("deletes field is not an array"))?;
+        let deletes_arr = doc.get("deletes")?.ok_or(anyhow!("deletes field is missing"))?.as_array().ok_or(anyhow!("deletes field is not an array"))?;
         let mut delete_result = DeleteResult::default();
 
         let session_opt = ctx.session.clone();
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 3a27d53..4c3f110 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -192,6 +192,22 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
 }
 
 async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, stream: &mut W, message: wire::Message) -> Result<()> {
+    let reply = match run_command(ctx, conn_id, &message).await {
+        Ok(reply) => reply,
+        Err(e) => {
+            log::error!("handler error: {:?}", e);
+            let doc = rawdoc! {
+                "ok": 0,
+                "errmsg": e.to_string(),
+                "code": 1,
+            };
+            Reply::new(message.request_id.unwrap(), doc)
+        }
+    };
+    reply.write_to(stream).await
+}
+
+async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) -> Result<Reply> {
     let handler = ctx.get_handlers(&message.document_payload)?;
     if let Some(handler) = handler {
         let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
@@ -222,36 +238,19 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
         let ctx = HandleContext {
             app_context: ctx.clone(),
             conn_id,
-            message: &message,
+            message,
             session,
             auto_commit,
         };
-        let reply_result = handler.handle(&ctx).await;
-        match reply_result {
-            Ok(reply) => {
-                reply.write_to(stream).await?;
-            }
-            Err(e) => {
-                log::error!("handler error: {:?}", e);
-                let doc = rawdoc! {
-                    "ok": 0,
-                    "errmsg": e.to_string(),
-                    "code": 1,
-                };
-                let reply = Reply::new(message.request_id.unwrap(), doc);
-                reply.write_to(stream).await?;
-            }
-        }
+        handler.handle(&ctx).await
     } else {
         log::error!("no handler found for message: {:?}", message);
         let doc = rawdoc! {
             "ok": 0,
             "errmsg": "no handler found",
         };
-        let reply = Reply::new(message.request_id.unwrap(), doc);
-        reply.write_to(stream).await?;
+        Ok(Reply::new(message.request_id.unwrap(), doc))
     }
-    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From c2ef233b5368a49607c4490f095f216839db99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 23/45] fix: accept the documents of a write in the body and in
 a sequence

---
 src/polodb/handlers/delete_handler.rs |  5 +---
 src/polodb/handlers/insert_handler.rs |  8 +-----
 src/polodb/handlers/update_handler.rs |  7 ++----
 src/polodb/wire/message.rs            | 36 ++++++++++++++++++++++++++-
 4 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index 3908329..cc2fe31 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -65,13 +65,10 @@ impl Handler for DeleteHandler {
         let doc = &ctx.message.document_payload;
         let collection_name = doc.get("delete")?.unwrap().as_str().ok_or(anyhow!("delete field is not a string"))?;
 
-        let deletes_arr = doc.get("deletes")?.ok_or(anyhow!("deletes field is missing"))?.as_array().ok_or(anyhow!("deletes field is not an array"))?;
         let mut delete_result = DeleteResult::default();
 
         let session_opt = ctx.session.clone();
-        for delete_doc in deletes_arr.into_iter() {
-            let doc_ref = delete_doc?.as_document().ok_or(anyhow!("delete document is not a document"))?;
-            let doc = bson::from_slice(doc_ref.as_bytes())?;
+        for doc in ctx.message.get_documents("deletes")? {
             DeleteHandler::handle_delete(ctx.app_context.clone(), &session_opt, collection_name, doc, &mut delete_result)?;
         }
 
diff --git a/src/polodb/handlers/insert_handler.rs b/src/polodb/handlers/insert_handler.rs
index 61486d3..b3c0f19 100644
--- a/src/polodb/handlers/insert_handler.rs
+++ b/src/polodb/handlers/insert_handler.rs
@@ -51,13 +51,7 @@ impl Handler for InsertHandler {
 
         let db = ctx.app_context.db();
 
-        let mut batch_insert = Vec::<bson::Document>::new();
-        for doc_seq in ctx.message.document_sequences.as_slice() {
-            for doc in doc_seq.documents.as_slice() {
-                let d = bson::from_slice::<bson::Document>(doc.as_bytes())?;
-                batch_insert.push(d);
-            }
-        }
+        let batch_insert = ctx.message.get_documents("documents")?;
 
         // insert could be blocking, so we spawn a blocking task
         debug!("inserted {} documents, start_transaction: {}", batch_insert.len(), auto_commit);
diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index f7d4b18..8ef2647 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -65,11 +65,8 @@ impl Handler for UpdateHandler {
 
         let mut update_result = UpdateResult::default();
 
-        let updates = doc.get_array("updates")?;
-        for update in updates.into_iter() {
-            let update = update?.as_document().ok_or(anyhow!("update is not a document"))?;
-            let d = bson::from_slice::<Document>(update.as_bytes())?;
-            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, d, &mut update_result)?;
+        for update in ctx.message.get_documents("updates")? {
+            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, update, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
 
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index fa196d3..7930349 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -82,6 +82,39 @@ impl Message {
         command
     }
 
+    /// Gets the documents of an argument of this message's command, whether they are in an array
+    /// of the command or in a document sequence.
+    pub(crate) fn get_documents(&self, name: &str) -> Result<Vec<Document>> {
+        let mut documents = Vec::new();
+        let mut found = false;
+
+        if let Some(value) = self.document_payload.get(name)? {
+            found = true;
+            let array = value.as_array().ok_or_else(|| anyhow!("{} field is not an array", name))?;
+            for element in array {
+                let document = element?
+                    .as_document()
+                    .ok_or_else(|| anyhow!("an element of {} is not a document", name))?;
+                documents.push(bson::from_slice::<Document>(document.as_bytes())?);
+            }
+        }
+
+        for document_sequence in &self.document_sequences {
+            if document_sequence.identifier == name {
+                found = true;
+                for document in &document_sequence.documents {
+                    documents.push(bson::from_slice::<Document>(document.as_bytes())?);
+                }
+            }
+        }
+
+        if !found {
+            return Err(anyhow!("{} field is missing", name));
+        }
+
+        Ok(documents)
+    }
+
     /// Reads bytes from `reader` and deserializes them into a Message.
     pub(crate) async fn read_from<T: AsyncRead + Unpin + Send>(
         mut reader: T,
@@ -434,12 +467,13 @@ impl MessageSection {
         let mut identifier = Vec::<u8>::new();
         loop {
             let c: u8 = reader.read_u8_sync()?;
-            identifier.push(c);
             length_remaining -= 1;
 
             if c == 0 {
                 break;
             }
+
+            identifier.push(c);
         }
 
         let mut documents = Vec::new();
-- 
2.43.0


From 37accd45361f03130a2600a222354a845327360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 24/45] fix: never give a new cursor the id of an open one

---
 src/polodb/app_context.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polodb/app_context.rs b/src/polodb/app_context.rs
index b7ff78b..b743927 100644
--- a/src/polodb/app_context.rs
+++ b/src/polodb/app_context.rs
@@ -14,7 +14,7 @@
 
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
-use std::sync::atomic::AtomicU64;
+use std::sync::atomic::{AtomicI64, AtomicU64};
 use bson::{Document, RawDocumentBuf};
 use bson::uuid::Uuid;
 use polodb_core::{ClientCursor, Database, Transaction};
@@ -64,8 +64,8 @@ impl AppContext {
 
     pub (crate) fn save_cursor(&self, cursor: Arc<Mutex<ClientCursor<Document>>>) -> i64 {
         let mut cursors = self.inner.cursors.lock().unwrap();
-        let mut cursor_id = cursors.len() as i64;
-        cursor_id += 1; // cursor_id starts from 1
+        // cursor_id starts from 1
+        let cursor_id = self.inner.cursor_id.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
         cursors.insert(cursor_id, cursor);
         cursor_id
     }
@@ -100,6 +100,7 @@ struct AppContextInner {
     handlers: Mutex<Vec<Arc<dyn Handler>>>,
     cursors: Mutex<HashMap<i64, Arc<Mutex<ClientCursor<Document>>>>>,
     conn_id: AtomicU64,
+    cursor_id: AtomicI64,
     session_ctx: Mutex<HashMap<Uuid, SessionContext>>,
 }
 
@@ -111,6 +112,7 @@ impl AppContextInner {
             handlers: Mutex::new(Vec::with_capacity(32)),
             cursors: Mutex::new(HashMap::new()),
             conn_id: AtomicU64::new(0),
+            cursor_id: AtomicI64::new(1),
             session_ctx: Mutex::new(HashMap::new()),
         }
     }
-- 
2.43.0


From cb372898e2aa2ad793c872dd209bf2302637e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 25/45] fix: announce an exhausted cursor with id 0 and forget
 it

---
 src/polodb/handlers/aggregate_handler.rs |  9 ++----
 src/polodb/handlers/find_handler.rs      | 40 ++++++++++++++----------
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/polodb/handlers/aggregate_handler.rs b/src/polodb/handlers/aggregate_handler.rs
index e2a78c4..924e769 100644
--- a/src/polodb/handlers/aggregate_handler.rs
+++ b/src/polodb/handlers/aggregate_handler.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
 use async_trait::async_trait;
 use anyhow::{anyhow, Result};
 use bson::{rawdoc, Document, RawDocumentBuf};
@@ -63,12 +63,7 @@ impl Handler for AggregateHandle {
             collection.aggregate(pipeline_arr).run()?
         };
 
-        let cursor = Arc::new(Mutex::new(cursor));
-        let cursor_id = ctx.app_context.save_cursor(cursor.clone());
-        let cursor_doc = {
-            let mut cursor_guard = cursor.lock().unwrap();
-            FindHandler::mk_cursor_doc(cursor_id, db_name, col_name, &mut cursor_guard, batch_size as isize)?
-        };
+        let cursor_doc = FindHandler::open_cursor(ctx, db_name, col_name, cursor, batch_size as isize)?;
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 2f4ef5b..533c07d 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -30,7 +30,8 @@ impl FindHandler {
     }
 
     fn handle_single_batch(ctx: &HandleContext, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>) -> Result<Reply> {
-        let cursor_doc = FindHandler::mk_cursor_doc(0, db_name, col_name, cursor, -1)?;
+        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, -1)?;
+        let cursor_doc = FindHandler::mk_cursor_doc(0, db_name, col_name, first_batch);
         let body = rawdoc! {
             "ok": 1,
             "cursor": cursor_doc,
@@ -40,10 +41,20 @@ impl FindHandler {
         Ok(reply)
     }
 
-    pub(crate) fn mk_cursor_doc(cursor_id: i64, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<RawDocumentBuf> {
+    /// Reads the first batch, and keeps the cursor for later only if there may be more to read from it.
+    pub(crate) fn open_cursor(ctx: &HandleContext, db_name: &str, col_name: &str, mut cursor: ClientCursor<Document>, batch_size: isize) -> Result<RawDocumentBuf> {
+        let (first_batch, has_more) = FindHandler::consume_first_batch(&mut cursor, batch_size)?;
+        let cursor_id = if has_more {
+            ctx.app_context.save_cursor(Arc::new(Mutex::new(cursor)))
+        } else {
+            0
+        };
+        Ok(FindHandler::mk_cursor_doc(cursor_id, db_name, col_name, first_batch))
+    }
+
+    fn mk_cursor_doc(cursor_id: i64, db_name: &str, col_name: &str, first_batch: RawArrayBuf) -> RawDocumentBuf {
         let mut doc = rawdoc! {};
 
-        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, batch_size)?;
         doc.append("firstBatch", RawBson::Array(first_batch));
         if cursor_id >= 0 {
             doc.append("id", RawBson::from(cursor_id));
@@ -52,7 +63,7 @@ impl FindHandler {
         let ns = format!("{}.{}", db_name, col_name);
         doc.append("ns", RawBson::from(ns));
 
-        Ok(doc)
+        doc
     }
 
     fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<(RawArrayBuf, bool)> {
@@ -60,15 +71,18 @@ impl FindHandler {
         let mut has_more = false;
         let mut count: isize = 0;
 
-        while cursor.advance()? {
-            let doc = cursor.deserialize_current()?;
-            let doc_bytes = bson::to_vec(&doc)?;
-            raw_arr.push(RawBson::Document(RawDocumentBuf::from_bytes(doc_bytes)?));
-            count += 1;
+        loop {
             if batch_size >= 0 && count >= batch_size {
                 has_more = true;
                 break;
             }
+            if !cursor.advance()? {
+                break;
+            }
+            let doc = cursor.deserialize_current()?;
+            let doc_bytes = bson::to_vec(&doc)?;
+            raw_arr.push(RawBson::Document(RawDocumentBuf::from_bytes(doc_bytes)?));
+            count += 1;
         }
 
         Ok((raw_arr, has_more))
@@ -164,13 +178,7 @@ impl Handler for FindHandler {
         if single_batch {
             return FindHandler::handle_single_batch(ctx, db_name, collection_name, &mut cursor);
         }
-        let cursor = Arc::new(Mutex::new(cursor));
-
-        let cursor_id = ctx.app_context.save_cursor(cursor.clone());
-        let cursor_doc = {
-            let mut cursor_guard = cursor.lock().unwrap();
-            FindHandler::mk_cursor_doc(cursor_id, db_name, collection_name, &mut cursor_guard, batch_size as isize)?
-        };
+        let cursor_doc = FindHandler::open_cursor(ctx, db_name, collection_name, cursor, batch_size as isize)?;
 
         let body = rawdoc! {
             "ok": 1,
-- 
2.43.0


From e40f73cbc8fb662c7c1a56adcb55fe7f1f5a9ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 26/45] fix: run an update in the transaction of its session

---
 src/polodb/handlers/update_handler.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index 8ef2647..3b425eb 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -22,6 +22,7 @@ use polodb_core::results::UpdateResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
 use crate::reply::Reply;
+use crate::session_context::SessionContext;
 
 pub(crate) struct UpdateHandler {}
 
@@ -31,9 +32,8 @@ impl UpdateHandler {
         Arc::new(UpdateHandler {})
     }
 
-    fn handle_update(ctx: AppContext, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
+    fn handle_update(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
         let db = ctx.db();
-        let collection = db.collection::<Document>(col_name);
 
         let filter = update.get("q").ok_or(anyhow!("update document missing q field"))?;
         let update = update.get("u").ok_or(anyhow!("update document missing u field"))?;
@@ -41,7 +41,14 @@ impl UpdateHandler {
         let filter_doc = filter.as_document().ok_or(anyhow!("q field is not a document"))?;
         let update_doc = update.as_document().ok_or(anyhow!("u field is not a document"))?;
 
-        let tmp_result = collection.update_many(filter_doc.clone(), update_doc.clone())?;
+        let tmp_result = if let Some(session) = session_opt {
+            let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
+            let collection = txn.collection::<Document>(col_name);
+            collection.update_many(filter_doc.clone(), update_doc.clone())?
+        } else {
+            let collection = db.collection::<Document>(col_name);
+            collection.update_many(filter_doc.clone(), update_doc.clone())?
+        };
         result.modified_count += tmp_result.modified_count;
 
         Ok(())
@@ -65,8 +72,9 @@ impl Handler for UpdateHandler {
 
         let mut update_result = UpdateResult::default();
 
+        let session_opt = ctx.session.clone();
         for update in ctx.message.get_documents("updates")? {
-            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, update, &mut update_result)?;
+            UpdateHandler::handle_update(ctx.app_context.clone(), &session_opt, collection_name, update, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
 
-- 
2.43.0


From d01efc1ae31bbd25c9feacff79717a3157ac8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 27/45] fix: respect limit of a delete and multi and upsert of
 an update, and count what matched

---
 src/polodb/handlers/delete_handler.rs | 19 +++++++++++++++++--
 src/polodb/handlers/update_handler.rs | 21 +++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index cc2fe31..b960b50 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -20,6 +20,7 @@ use anyhow::{anyhow, Result};
 use polodb_core::results::DeleteResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
+use crate::bson_util::get_int;
 use crate::reply::Reply;
 use crate::session_context::SessionContext;
 
@@ -34,14 +35,19 @@ impl DeleteHandler {
     fn handle_delete(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, delete_doc: Document, result: &mut DeleteResult) -> Result<()> {
         let db = ctx.db();
         let filter = delete_doc.get_document("q")?;
+        // 0 means all the matching documents
+        let limit = match delete_doc.get("limit") {
+            Some(limit) => get_int(limit).ok_or(anyhow!("limit is not a number"))?,
+            None => 0,
+        };
 
         let tmp_result = if let Some(session) = session_opt {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
             let collection = txn.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            DeleteHandler::run_delete(&collection, filter, limit)?
         } else {
             let collection = db.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            DeleteHandler::run_delete(&collection, filter, limit)?
         };
 
         result.deleted_count += tmp_result.deleted_count;
@@ -49,6 +55,15 @@ impl DeleteHandler {
         Ok(())
     }
 
+    fn run_delete(collection: &impl CollectionT<Document>, filter: &Document, limit: i64) -> Result<DeleteResult> {
+        let result = if limit == 1 {
+            collection.delete_one(filter.clone())?
+        } else {
+            collection.delete_many(filter.clone())?
+        };
+        Ok(result)
+    }
+
 }
 
 #[async_trait]
diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index 3b425eb..4be969f 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -18,6 +18,7 @@ use crate::handlers::{HandleContext, Handler};
 use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
+use polodb_core::options::UpdateOptions;
 use polodb_core::results::UpdateResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
@@ -35,25 +36,41 @@ impl UpdateHandler {
     fn handle_update(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
         let db = ctx.db();
 
+        let multi = update.get_bool("multi").unwrap_or(false);
+        let upsert = update.get_bool("upsert").unwrap_or(false);
         let filter = update.get("q").ok_or(anyhow!("update document missing q field"))?;
         let update = update.get("u").ok_or(anyhow!("update document missing u field"))?;
 
+        let options = UpdateOptions::builder()
+            .upsert(upsert)
+            .build();
+
         let filter_doc = filter.as_document().ok_or(anyhow!("q field is not a document"))?;
         let update_doc = update.as_document().ok_or(anyhow!("u field is not a document"))?;
 
         let tmp_result = if let Some(session) = session_opt {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
             let collection = txn.collection::<Document>(col_name);
-            collection.update_many(filter_doc.clone(), update_doc.clone())?
+            UpdateHandler::run_update(&collection, filter_doc, update_doc, multi, options)?
         } else {
             let collection = db.collection::<Document>(col_name);
-            collection.update_many(filter_doc.clone(), update_doc.clone())?
+            UpdateHandler::run_update(&collection, filter_doc, update_doc, multi, options)?
         };
+        result.matched_count += tmp_result.matched_count;
         result.modified_count += tmp_result.modified_count;
 
         Ok(())
     }
 
+    fn run_update(collection: &impl CollectionT<Document>, filter: &Document, update: &Document, multi: bool, options: UpdateOptions) -> Result<UpdateResult> {
+        let result = if multi {
+            collection.update_many_with_options(filter.clone(), update.clone(), options)?
+        } else {
+            collection.update_one_with_options(filter.clone(), update.clone(), options)?
+        };
+        Ok(result)
+    }
+
 }
 
 #[async_trait]
-- 
2.43.0


From bb65f524e19295aa4ae8e6e2c06bef16a1b21fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 28/45] fix: sort the documents of a find command

---
 src/polodb/handlers/find_handler.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 533c07d..66ea32b 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -128,6 +128,14 @@ impl Handler for FindHandler {
             },
         };
 
+        let sort = match doc.get("sort")? {
+            Some(val) => {
+                let doc = val.as_document().ok_or(anyhow!("sort is not a document"))?;
+                Some(bson::from_slice::<bson::Document>(doc.as_bytes())?)
+            },
+            None => None,
+        };
+
         let limit = doc.get("limit")?.map( |val| {
             match val {
                 RawBsonRef::Int32(val) => val as i64,
@@ -163,6 +171,9 @@ impl Handler for FindHandler {
             if let Some(skip) = skip {
                 find = find.skip(skip as u64)
             };
+            if let Some(sort) = sort {
+                find = find.sort(sort)
+            };
             find.run()?
         } else {
             let collection = db.collection::<Document>(collection_name);
@@ -173,6 +184,9 @@ impl Handler for FindHandler {
             if let Some(skip) = skip {
                 find = find.skip(skip as u64)
             };
+            if let Some(sort) = sort {
+                find = find.sort(sort)
+            };
             find.run()?
         };
         if single_batch {
-- 
2.43.0


From 2e9d17d195beaac7e6c63c1e26b5462afda8252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 29/45] fix: send no reply to a message that asks for none

---
 src/polodb/main.rs     | 4 ++++
 src/polodb/wire/mod.rs | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 4c3f110..197d285 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -204,6 +204,10 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
             Reply::new(message.request_id.unwrap(), doc)
         }
     };
+    // the client does not expect a reply to such a message
+    if message.flags.contains(wire::MessageFlags::MORE_TO_COME) {
+        return Ok(());
+    }
     reply.write_to(stream).await
 }
 
diff --git a/src/polodb/wire/mod.rs b/src/polodb/wire/mod.rs
index 9bb7873..289532c 100644
--- a/src/polodb/wire/mod.rs
+++ b/src/polodb/wire/mod.rs
@@ -5,5 +5,5 @@ mod util;
 
 pub(crate) use util::next_request_id;
 pub(crate) use header::{Header, OpCode};
-pub(crate) use message::Message;
+pub(crate) use message::{Message, MessageFlags};
 
-- 
2.43.0


From 5ad40fe532f4ab201a190c3f4b2f93b15bc5336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 30/45] fix: recognise abortTransaction with an Int32

---
 src/polodb/handlers/abort_transaction.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polodb/handlers/abort_transaction.rs b/src/polodb/handlers/abort_transaction.rs
index 4047ab9..6145b21 100644
--- a/src/polodb/handlers/abort_transaction.rs
+++ b/src/polodb/handlers/abort_transaction.rs
@@ -2,6 +2,7 @@ use std::sync::Arc;
 use bson::{rawdoc, RawDocumentBuf};
 use anyhow::{anyhow, Result};
 use async_trait::async_trait;
+use crate::bson_util::get_int_raw;
 use crate::handlers::{HandleContext, Handler};
 use crate::reply::Reply;
 
@@ -21,7 +22,7 @@ impl Handler for AbortTransactionHandler {
     fn test(&self, doc: &RawDocumentBuf) -> anyhow::Result<bool> {
         let val = doc.get("abortTransaction")?;
         match val {
-            Some(r) => Ok(r.as_i64().is_some()),
+            Some(r) => Ok(get_int_raw(r).is_some()),
             None => Ok(false),
         }
     }
-- 
2.43.0


From c456f928c8f38e0ad18f5777d0fc7f5f85861506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 31/45] fix: take a command for a part of a transaction only
 while that runs

---
 src/polodb/handlers/commit_transaction.rs | 1 +
 src/polodb/main.rs                        | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/polodb/handlers/commit_transaction.rs b/src/polodb/handlers/commit_transaction.rs
index 37f5d2e..4ce8480 100644
--- a/src/polodb/handlers/commit_transaction.rs
+++ b/src/polodb/handlers/commit_transaction.rs
@@ -37,6 +37,7 @@ impl Handler for CommitTransactionHandler {
         let session = ctx.session.as_ref().ok_or(anyhow!("session not found"))?;
         let conn_ctx = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
         conn_ctx.commit()?;
+        session.clear_transaction();
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 197d285..f8663d1 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -214,6 +214,7 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
 async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) -> Result<Reply> {
     let handler = ctx.get_handlers(&message.document_payload)?;
     if let Some(handler) = handler {
+        let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
         let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
         let session = if start_transaction {
             let lsid = message.document_payload.get_document("lsid")?;
@@ -224,6 +225,9 @@ async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) ->
             info!("=== start transaction: {:?}, id: {:?}", lsid_doc, id);
             let txn = ctx.db().start_transaction()?;
             Some(ctx.create_session(id, txn))
+        } else if auto_commit {
+            // the command may name a session, but it's not part of a transaction
+            None
         } else {
             let lsid_opt = message.document_payload.get("lsid")?;
             match lsid_opt {
@@ -232,13 +236,11 @@ async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) ->
                     let id = uuid_from_bson(
                         lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
                     ).ok_or(anyhow!("lsid missing id field"))?;
-                    ctx.get_session(&id)
+                    Some(ctx.get_session(&id).ok_or(anyhow!("transaction not found"))?)
                 }
                 _ => None
             }
         };
-        let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
-
         let ctx = HandleContext {
             app_context: ctx.clone(),
             conn_id,
-- 
2.43.0


From 287e9f6c60a387b2d38948ae5bd865104b41292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 32/45] fix: go on serving after a failed accept

---
 src/polodb/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index f8663d1..a2ac879 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -167,8 +167,10 @@ pub(crate) async fn start_socket_server(path: String, socket: String, token: Can
                             });
                         }
                         Err(err) => {
+                            // the next connection may be fine: a client went away, or there are
+                            // no more file descriptors for a while
                             warn!("accept error: {:?}", err);
-                            return
+                            tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
                         }
                     }
                 }
@@ -179,6 +181,8 @@ pub(crate) async fn start_socket_server(path: String, socket: String, token: Can
     Ok((addr, fut))
 }
 
+const ACCEPT_RETRY_DELAY: std::time::Duration = std::time::Duration::from_millis(10);
+
 const MAX_MESSAGE_SIZE: usize = 16 * 1024 * 1024;
 
 async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext, conn_id: u64, mut stream: W) -> Result<()> {
-- 
2.43.0


From 8e1bc82dd3ed1ef011814f3319140f9573727d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 33/45] fix: refuse documents that are nested too deeply

---
 src/polodb/bson_util.rs    | 24 ++++++++++++++++++++++++
 src/polodb/main.rs         |  4 +++-
 src/polodb/wire/message.rs | 11 +++++++++++
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index 5be9af1..5d196c7 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -20,6 +20,7 @@ use bson:: {
     RawArrayBuf,
     RawBson,
     RawBsonRef,
+    RawDocument,
     RawDocumentBuf,
 };
 
@@ -145,6 +146,29 @@ fn num_decimal_digits(mut n: usize) -> usize {
     }
 }
 
+/// The deepest nesting of documents and arrays that is accepted from a client.
+/// Reading a document takes stack for every level, so there must be a limit.
+const MAX_NESTING_DEPTH: usize = 100;
+
+pub(crate) fn nesting_check(doc: &RawDocument) -> Result<()> {
+    nesting_check_at(doc, 1)
+}
+
+fn nesting_check_at(doc: &RawDocument, depth: usize) -> Result<()> {
+    if depth > MAX_NESTING_DEPTH {
+        return Err(anyhow!("the document has more than {} levels", MAX_NESTING_DEPTH));
+    }
+    for element in doc {
+        match element?.1 {
+            RawBsonRef::Document(doc) => nesting_check_at(doc, depth + 1)?,
+            RawBsonRef::Array(array) => nesting_check_at(RawDocument::from_bytes(array.as_bytes())?, depth + 1)?,
+            RawBsonRef::JavaScriptCodeWithScope(code) => nesting_check_at(code.scope, depth + 1)?,
+            _ => {},
+        }
+    }
+    Ok(())
+}
+
 /// Read a document's raw BSON bytes from the provided reader.
 pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     let length = reader.read_i32_sync()?;
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index a2ac879..35da5de 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -189,7 +189,6 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
     loop {
         let ctx = ctx.clone();
         let message = wire::Message::read_from(&mut stream, Some(MAX_MESSAGE_SIZE as i32)).await?;
-        debug!("received: {:?}", message);
 
         handle_message(ctx, conn_id, &mut stream, message).await?;
     }
@@ -216,6 +215,9 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
 }
 
 async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) -> Result<Reply> {
+    message.nesting_check()?;
+    debug!("received: {:?}", message);
+
     let handler = ctx.get_handlers(&message.document_payload)?;
     if let Some(handler) = handler {
         let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index 7930349..910d600 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -82,6 +82,17 @@ impl Message {
         command
     }
 
+    /// Checks that the documents of this message are not nested too deeply.
+    pub(crate) fn nesting_check(&self) -> Result<()> {
+        bson_util::nesting_check(&self.document_payload)?;
+        for document_sequence in &self.document_sequences {
+            for document in &document_sequence.documents {
+                bson_util::nesting_check(document)?;
+            }
+        }
+        Ok(())
+    }
+
     /// Gets the documents of an argument of this message's command, whether they are in an array
     /// of the command or in a document sequence.
     pub(crate) fn get_documents(&self, name: &str) -> Result<Vec<Document>> {
-- 
2.43.0


From 2a15410a323e2eeebb5ed4aa4726f419357139d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 34/45] fix: don't read the changes of a finished transaction

A cursor of a transaction went on reading its changes after the commit or the
rollback had freed them, and ended the process. Now it reports an error, and
its accesses hold the lock of the transaction.
---
 src/polodb_core/db/rocksdb_iterator.rs    | 108 +++++++++++++++-------
 src/polodb_core/db/rocksdb_transaction.rs |  13 ++-
 2 files changed, 84 insertions(+), 37 deletions(-)

diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index 047b5c1..0014591 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use std::ptr::null_mut;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex, MutexGuard};
 use std::sync::atomic::Ordering;
 use libc::c_char;
 use crate::db::rocksdb_options::RocksDBReadOptions;
@@ -27,8 +27,8 @@ pub(crate) struct RocksDBIterator {
 }
 
 impl RocksDBIterator {
-    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner, snapshot: Option<Arc<RocksDBSnapshot>>) -> RocksDBIterator {
-        let inner = RocksDBIteratorInner::new(txn_inner, snapshot);
+    pub(crate) fn new(txn: Arc<Mutex<RocksDBTransactionInner>>, snapshot: Option<Arc<RocksDBSnapshot>>) -> RocksDBIterator {
+        let inner = RocksDBIteratorInner::new(txn, snapshot);
         RocksDBIterator {
             inner: Arc::new(inner),
         }
@@ -72,11 +72,15 @@ impl RocksDBIterator {
     }
 }
 
+/// The iterator reads the changes of the transaction, which are gone once it has been
+/// committed or rolled back. All the accesses hold the lock of the transaction.
 pub(crate) struct RocksDBIteratorInner {
     inner: *mut ffi::rocksdb_iterator_t,
-    txn_inner: *mut RocksDBTransactionInner,
     _read_options: RocksDBReadOptions,
     _snapshot: Option<Arc<RocksDBSnapshot>>,
+    // released after the snapshot
+    txn: Arc<Mutex<RocksDBTransactionInner>>,
+    txn_epoch: u64,
 }
 
 unsafe impl Send for RocksDBIteratorInner {}
@@ -84,55 +88,90 @@ unsafe impl Sync for RocksDBIteratorInner {}
 
 impl RocksDBIteratorInner {
 
-    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner, snapshot: Option<Arc<RocksDBSnapshot>>) -> RocksDBIteratorInner {
-        unsafe {
-            let txn_ptr = (*txn_inner).inner;
-            let read_options = RocksDBReadOptions::new();
-            if let Some(snapshot) = &snapshot {
-                read_options.set_snapshot(snapshot.get());
-            }
-            let iter = ffi::rocksdb_transaction_create_iterator(txn_ptr, read_options.get());
-            _ = (*txn_inner).iter_count.fetch_add(1, Ordering::SeqCst);
-            RocksDBIteratorInner {
-                inner: iter,
-                txn_inner,
-                _read_options: read_options,
-                _snapshot: snapshot,
-            }
+    pub(crate) fn new(txn: Arc<Mutex<RocksDBTransactionInner>>, snapshot: Option<Arc<RocksDBSnapshot>>) -> RocksDBIteratorInner {
+        let read_options = RocksDBReadOptions::new();
+        if let Some(snapshot) = &snapshot {
+            read_options.set_snapshot(snapshot.get());
+        }
+        let (iter, txn_epoch) = {
+            let txn_inner = txn.lock().unwrap();
+            let iter = unsafe {
+                ffi::rocksdb_transaction_create_iterator(txn_inner.inner, read_options.get())
+            };
+            _ = txn_inner.iter_count.fetch_add(1, Ordering::SeqCst);
+            (iter, txn_inner.epoch())
+        };
+        RocksDBIteratorInner {
+            inner: iter,
+            _read_options: read_options,
+            _snapshot: snapshot,
+            txn,
+            txn_epoch,
+        }
+    }
+
+    /// None if the transaction has been committed or rolled back
+    fn lock_txn(&self) -> Option<MutexGuard<'_, RocksDBTransactionInner>> {
+        let txn = self.txn.lock().unwrap();
+        if txn.epoch() == self.txn_epoch {
+            Some(txn)
+        } else {
+            None
         }
     }
 
     pub fn seek_to_first(&self) {
-        unsafe {
-            ffi::rocksdb_iter_seek_to_first(self.inner);
+        if let Some(_txn) = self.lock_txn() {
+            unsafe {
+                ffi::rocksdb_iter_seek_to_first(self.inner);
+            }
         }
     }
 
     pub fn seek(&self, key: &[u8]) {
-        unsafe {
-            ffi::rocksdb_iter_seek(self.inner, key.as_ptr().cast::<c_char>(), key.len());
+        if let Some(_txn) = self.lock_txn() {
+            unsafe {
+                ffi::rocksdb_iter_seek(self.inner, key.as_ptr().cast::<c_char>(), key.len());
+            }
         }
     }
 
     pub fn valid(&self) -> bool {
-        unsafe {
-            ffi::rocksdb_iter_valid(self.inner) != 0
+        match self.lock_txn() {
+            Some(_txn) => unsafe {
+                ffi::rocksdb_iter_valid(self.inner) != 0
+            },
+            None => false,
         }
     }
 
     pub fn next(&self) {
-        unsafe {
-            ffi::rocksdb_iter_next(self.inner);
+        if let Some(_txn) = self.lock_txn() {
+            unsafe {
+                ffi::rocksdb_iter_next(self.inner);
+            }
         }
     }
 
     pub fn prev(&self) {
-        unsafe {
-            ffi::rocksdb_iter_prev(self.inner);
+        if let Some(_txn) = self.lock_txn() {
+            unsafe {
+                ffi::rocksdb_iter_prev(self.inner);
+            }
         }
     }
 
     pub fn error(&self) -> Result<()> {
+        self.lock_valid_txn().map(|_| ())
+    }
+
+    fn lock_valid_txn(&self) -> Result<MutexGuard<'_, RocksDBTransactionInner>> {
+        let txn = match self.lock_txn() {
+            Some(txn) => txn,
+            None => {
+                return Err(crate::Error::RocksDbErr("the transaction of the cursor is finished".to_owned()));
+            }
+        };
         unsafe {
             let mut err: *mut c_char = null_mut();
             ffi::rocksdb_iter_get_error(self.inner, &mut err);
@@ -145,12 +184,12 @@ impl RocksDBIteratorInner {
                 // Convert the &str to a String and return
                 return Err(crate::Error::RocksDbErr(str_slice.to_owned()))
             }
-            Ok(())
         }
+        Ok(txn)
     }
 
     pub fn copy_key(&self) -> Result<Vec<u8>> {
-        self.error()?;
+        let _txn = self.lock_valid_txn()?;
         unsafe {
             let mut len: usize = 0;
             let key = ffi::rocksdb_iter_key(self.inner, &mut len);
@@ -160,7 +199,7 @@ impl RocksDBIteratorInner {
     }
 
     pub fn copy_key_arc(&self) -> Result<Arc<[u8]>> {
-        self.error()?;
+        let _txn = self.lock_valid_txn()?;
         unsafe {
             let mut len: usize = 0;
             let key = ffi::rocksdb_iter_key(self.inner, &mut len);
@@ -170,7 +209,7 @@ impl RocksDBIteratorInner {
     }
 
     pub fn copy_data(&self) -> Result<Vec<u8>> {
-        self.error()?;
+        let _txn = self.lock_valid_txn()?;
         unsafe {
             let mut len: usize = 0;
             let data = ffi::rocksdb_iter_value(self.inner, &mut len);
@@ -183,9 +222,10 @@ impl RocksDBIteratorInner {
 
 impl Drop for RocksDBIteratorInner {
     fn drop(&mut self) {
+        let txn = self.txn.lock().unwrap();
         unsafe {
             ffi::rocksdb_iter_destroy(self.inner);
-            _ = (*self.txn_inner).iter_count.fetch_sub(1, Ordering::SeqCst);
         }
+        _ = txn.iter_count.fetch_sub(1, Ordering::SeqCst);
     }
 }
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 7fff42f..93f95e9 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -12,7 +12,6 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::ops::DerefMut;
 use std::ptr;
 use std::ptr::null_mut;
 use std::sync::{Arc, Mutex};
@@ -69,8 +68,7 @@ impl RocksDBTransaction {
     }
 
     pub fn new_iterator(&self) -> RocksDBIterator {
-        let mut inner = self.inner.lock().unwrap();
-        RocksDBIterator::new(inner.deref_mut() as *mut RocksDBTransactionInner, self.snapshot.clone())
+        RocksDBIterator::new(self.inner.clone(), self.snapshot.clone())
     }
 
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
@@ -149,6 +147,8 @@ pub(crate) struct RocksDBTransactionInner {
     pub(crate) inner: *mut ffi::rocksdb_transaction_t,
     db_inner: *mut RocksDBWrapperInner,
     pub(crate) iter_count: AtomicU64,
+    // counts the commits and rollbacks, which discard what the iterators read
+    epoch: AtomicU64,
 }
 
 unsafe impl Send for RocksDBTransactionInner {}
@@ -177,6 +177,7 @@ impl RocksDBTransactionInner {
                 inner,
                 db_inner,
                 iter_count: AtomicU64::new(0),
+                epoch: AtomicU64::new(0),
             })
         }
     }
@@ -265,7 +266,12 @@ impl RocksDBTransactionInner {
         }
     }
 
+    pub(crate) fn epoch(&self) -> u64 {
+        self.epoch.load(Ordering::SeqCst)
+    }
+
     pub fn rollback(&self) -> Result<()> {
+        _ = self.epoch.fetch_add(1, Ordering::SeqCst);
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
             ffi::rocksdb_transaction_rollback(self.inner, &mut err);
@@ -276,6 +282,7 @@ impl RocksDBTransactionInner {
     }
 
     pub(crate) fn commit(&self) -> Result<()> {
+        _ = self.epoch.fetch_add(1, Ordering::SeqCst);
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
-- 
2.43.0


From d91c37bda3dd12694a0332a4d557d6de4d07d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 35/45] fix: don't allocate what the length of a malformed
 document claims

---
 src/polodb/bson_util.rs    | 13 ++++++++++---
 src/polodb/wire/message.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index 5d196c7..7abee66 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -3,7 +3,7 @@
 use std::{
     collections::HashSet,
     convert::TryFrom,
-    io::{Read, Write},
+    io::Read,
 };
 use std::convert::TryInto;
 
@@ -173,11 +173,18 @@ fn nesting_check_at(doc: &RawDocument, depth: usize) -> Result<()> {
 pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     let length = reader.read_i32_sync()?;
 
-    let mut bytes = Vec::with_capacity(length as usize);
-    bytes.write_all(&length.to_le_bytes())?;
+    if length < 5 {
+        return Err(anyhow!("invalid length of a document: {}", length));
+    }
 
+    // The length is what the peer claims, don't allocate that much before the bytes are there.
+    let mut bytes = length.to_le_bytes().to_vec();
     reader.take(length as u64 - 4).read_to_end(&mut bytes)?;
 
+    if bytes.len() != length as usize {
+        return Err(anyhow!("a document of {} bytes ends after {} bytes", length, bytes.len()));
+    }
+
     Ok(bytes)
 }
 
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index 910d600..afaefda 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -466,8 +466,16 @@ impl MessageSection {
         let size = Checked::<usize>::try_from(reader.read_i32_sync()?)?;
         let mut length_remaining = size - std::mem::size_of::<i32>();
 
-        let mut remain_buffer = vec![0u8; length_remaining.get()?];
-        reader.read_exact(&mut remain_buffer)?;
+        // The size is what the peer claims, don't allocate that much before the bytes are there.
+        let mut remain_buffer = Vec::new();
+        reader.by_ref().take(length_remaining.get()? as u64).read_to_end(&mut remain_buffer)?;
+        if remain_buffer.len() != length_remaining.get()? {
+            return Err(anyhow!(
+                "a section of {} bytes ends after {} bytes",
+                size,
+                remain_buffer.len() + std::mem::size_of::<i32>(),
+            ));
+        }
 
         let mut buf_slice = remain_buffer.as_slice();
         let reader = &mut buf_slice;
-- 
2.43.0


From 5371f4137a0c5e059f2ef1a22367dd5360fa70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 36/45] fix: accept messages as large as hello advertises

---
 src/polodb/handlers/hello_handler.rs | 2 +-
 src/polodb/main.rs                   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/polodb/handlers/hello_handler.rs b/src/polodb/handlers/hello_handler.rs
index c6641b5..50bff8f 100644
--- a/src/polodb/handlers/hello_handler.rs
+++ b/src/polodb/handlers/hello_handler.rs
@@ -49,7 +49,7 @@ impl Handler for HelloHandler {
             "minWireVersion": 7,
             "maxWireVersion": 21,
             "maxBsonObjectSize": 16 * 1024 * 1024,
-            "maxMessageSizeBytes": 48000000,
+            "maxMessageSizeBytes": crate::MAX_MESSAGE_SIZE,
             "logicalSessionTimeoutMinutes": 30,
         };
         let reply = Reply::new(req_id, body);
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 35da5de..cda6831 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -183,12 +183,13 @@ pub(crate) async fn start_socket_server(path: String, socket: String, token: Can
 
 const ACCEPT_RETRY_DELAY: std::time::Duration = std::time::Duration::from_millis(10);
 
-const MAX_MESSAGE_SIZE: usize = 16 * 1024 * 1024;
+/// What the server tells its clients in the reply to `hello`.
+pub(crate) const MAX_MESSAGE_SIZE: i32 = 48_000_000;
 
 async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext, conn_id: u64, mut stream: W) -> Result<()> {
     loop {
         let ctx = ctx.clone();
-        let message = wire::Message::read_from(&mut stream, Some(MAX_MESSAGE_SIZE as i32)).await?;
+        let message = wire::Message::read_from(&mut stream, Some(MAX_MESSAGE_SIZE)).await?;
 
         handle_message(ctx, conn_id, &mut stream, message).await?;
     }
-- 
2.43.0


From b9adaa5f80c494f092e5d0f984563f4e75888ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 37/45] fix: end a batch before the reply gets larger than a
 message may be

---
 src/polodb/handlers/find_handler.rs     | 10 +++++-----
 src/polodb/handlers/get_more_handler.rs |  4 ++--
 src/polodb/handlers/mod.rs              |  4 ++++
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 66ea32b..4d7bec3 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -15,7 +15,7 @@
 use std::sync::{Arc, Mutex};
 use anyhow::{anyhow, Result};
 use bson::{rawdoc, Document, RawArrayBuf, RawBson, RawBsonRef, RawDocumentBuf};
-use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE};
+use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE, MAX_BATCH_BYTES};
 use crate::reply::Reply;
 use async_trait::async_trait;
 use log::debug;
@@ -30,7 +30,7 @@ impl FindHandler {
     }
 
     fn handle_single_batch(ctx: &HandleContext, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>) -> Result<Reply> {
-        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, -1)?;
+        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, -1, usize::MAX)?;
         let cursor_doc = FindHandler::mk_cursor_doc(0, db_name, col_name, first_batch);
         let body = rawdoc! {
             "ok": 1,
@@ -43,7 +43,7 @@ impl FindHandler {
 
     /// Reads the first batch, and keeps the cursor for later only if there may be more to read from it.
     pub(crate) fn open_cursor(ctx: &HandleContext, db_name: &str, col_name: &str, mut cursor: ClientCursor<Document>, batch_size: isize) -> Result<RawDocumentBuf> {
-        let (first_batch, has_more) = FindHandler::consume_first_batch(&mut cursor, batch_size)?;
+        let (first_batch, has_more) = FindHandler::consume_first_batch(&mut cursor, batch_size, MAX_BATCH_BYTES)?;
         let cursor_id = if has_more {
             ctx.app_context.save_cursor(Arc::new(Mutex::new(cursor)))
         } else {
@@ -66,13 +66,13 @@ impl FindHandler {
         doc
     }
 
-    fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<(RawArrayBuf, bool)> {
+    fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: isize, max_bytes: usize) -> Result<(RawArrayBuf, bool)> {
         let mut raw_arr = RawArrayBuf::new();
         let mut has_more = false;
         let mut count: isize = 0;
 
         loop {
-            if batch_size >= 0 && count >= batch_size {
+            if (batch_size >= 0 && count >= batch_size) || raw_arr.as_bytes().len() >= max_bytes {
                 has_more = true;
                 break;
             }
diff --git a/src/polodb/handlers/get_more_handler.rs b/src/polodb/handlers/get_more_handler.rs
index a78c293..98c2a16 100644
--- a/src/polodb/handlers/get_more_handler.rs
+++ b/src/polodb/handlers/get_more_handler.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 use anyhow::{anyhow, Result};
-use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE};
+use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE, MAX_BATCH_BYTES};
 use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
@@ -24,7 +24,7 @@ impl GetMoreHandler {
             let doc_bytes = bson::to_vec(&doc)?;
             next_batch_arr.push(bson::raw::RawBson::Document(RawDocumentBuf::from_bytes(doc_bytes)?));
             count += 1;
-            if batch_size >= 0 && count >= batch_size {
+            if (batch_size >= 0 && count >= batch_size) || next_batch_arr.as_bytes().len() >= MAX_BATCH_BYTES {
                 has_more = true;
                 break;
             }
diff --git a/src/polodb/handlers/mod.rs b/src/polodb/handlers/mod.rs
index 6c95493..cd0e6d6 100644
--- a/src/polodb/handlers/mod.rs
+++ b/src/polodb/handlers/mod.rs
@@ -33,6 +33,10 @@ use crate::session_context::SessionContext;
 
 pub(crate) const DEFAULT_BATCH_SIZE: i32 = 101;
 
+/// A batch ends when its documents take that many bytes: a reply with a further document is still
+/// within the size of a message.
+pub(crate) const MAX_BATCH_BYTES: usize = 16 * 1024 * 1024;
+
 pub(crate) struct HandleContext<'a> {
     pub(crate) app_context: AppContext,
     pub(crate) conn_id: u64,
-- 
2.43.0


From 070b520950ee26d0892b858ae462f168630e4db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 38/45] fix: tell strings with a zero inside apart in the index

---
 src/polodb_core/index/index_helper.rs | 50 ++++++++++++++++++++-------
 src/polodb_core/index/mod.rs          |  2 +-
 src/polodb_core/vm/vm.rs              | 22 +++++++-----
 3 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index ebbc25a..23bf87e 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -41,13 +41,38 @@ pub(crate) struct IndexHelper<'b, 'c, 'd, 'e> {
 
 pub(crate) fn make_index_key_with_query_key(prefix_bytes: &[u8], query_value: &Bson) -> Result<Vec<u8>> {
     let mut key_buffer = prefix_bytes.to_vec();
-    let primary_key_buffer = crate::utils::bson::stacked_key([
-        query_value,
-    ])?;
+    write_index_value(&mut key_buffer, query_value)?;
+    Ok(key_buffer)
+}
 
-    key_buffer.extend_from_slice(&primary_key_buffer);
+/// Follows a zero inside of a string. No key begins with it.
+const ZERO_INSIDE: u8 = 0xff;
+
+/// The zero at the end of a string would be ambiguous if there could be zeros inside of it.
+fn write_index_value(key_buffer: &mut Vec<u8>, value: &Bson) -> Result<()> {
+    let bytes = crate::utils::bson::stacked_key([value])?;
+    match value {
+        Bson::String(_) | Bson::Symbol(_) => {
+            let last = bytes.len() - 1;
+            for (i, byte) in bytes.into_iter().enumerate() {
+                key_buffer.push(byte);
+                if byte == 0 && i < last {
+                    key_buffer.push(ZERO_INSIDE);
+                }
+            }
+        }
+        _ => key_buffer.extend_from_slice(&bytes),
+    }
+    Ok(())
+}
 
-    Ok(key_buffer)
+/// The encoded primary key of an entry of the index,
+/// if it belongs to the value that `value_key` was made for by `make_index_key_with_query_key`
+pub(crate) fn pkey_of_index_entry<'a>(value_key: &[u8], entry: &'a [u8]) -> Option<&'a [u8]> {
+    match entry.strip_prefix(value_key) {
+        Some([ZERO_INSIDE, ..]) => None,
+        other => other,
+    }
 }
 
 /// The values with another type which equal the number: see `value_cmp`
@@ -178,7 +203,7 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
         }
         let current_key = cursor.copy_key_arc()?;
 
-        if current_key.starts_with(&index_key_tester) {
+        if pkey_of_index_entry(&index_key_tester, current_key.as_ref()).is_some() {
             return Err(DuplicateKeyError {
                 name: index_name.to_string(),
                 key: value.to_string(),
@@ -194,18 +219,19 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
         let b_col_name = Bson::String(col_name.to_string());
         let b_index_name = &Bson::String(index_name.to_string());
 
-        let mut buf: Vec<&Bson> = vec![
+        let mut buf = crate::utils::bson::stacked_key([
             &b_prefix,
             &b_col_name,
-            &b_index_name,
-            value,
-        ];
+            b_index_name,
+        ])?;
+
+        write_index_value(&mut buf, value)?;
 
         if let Some(pkey) = pkey {
-            buf.push(pkey);
+            crate::utils::bson::stacked_key_bytes(&mut buf, pkey)?;
         }
 
-        crate::utils::bson::stacked_key(buf)
+        Ok(buf)
     }
 
 }
diff --git a/src/polodb_core/index/mod.rs b/src/polodb_core/index/mod.rs
index 6c7cfd0..b917594 100644
--- a/src/polodb_core/index/mod.rs
+++ b/src/polodb_core/index/mod.rs
@@ -16,6 +16,6 @@ mod index_helper;
 mod index_model;
 mod index_builder;
 
-pub(crate) use index_helper::{IndexHelper, IndexHelperOperation, INDEX_PREFIX, make_index_key_with_query_key, equal_numbers};
+pub(crate) use index_helper::{IndexHelper, IndexHelperOperation, INDEX_PREFIX, make_index_key_with_query_key, pkey_of_index_entry, equal_numbers};
 pub(crate) use index_builder::IndexBuilder;
 pub use index_model::{IndexModel, IndexOptions};
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 1b90538..60b64e8 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -14,7 +14,7 @@
 
 use crate::cursor::Cursor;
 use crate::errors::{FieldTypeUnexpectedStruct, UnexpectedTypeForOpStruct};
-use crate::index::{equal_numbers, make_index_key_with_query_key, IndexHelper, IndexHelperOperation};
+use crate::index::{equal_numbers, make_index_key_with_query_key, pkey_of_index_entry, IndexHelper, IndexHelperOperation};
 use crate::transaction::TransactionInner;
 use crate::vm::op::{generic_cmp, DbOp};
 use crate::vm::query_matcher::{field_path_value, matches_all, matches_in, matches_regex};
@@ -224,11 +224,15 @@ impl VM {
 
         loop {
             let current_key = match self.r1.as_ref().unwrap().peek_key() {
-                Some(key) if key.starts_with(key_buffer.as_slice()) => key,
-                _ => return Ok(false),
+                Some(key) => key,
+                None => return Ok(false),
+            };
+            let pkey = match pkey_of_index_entry(&key_buffer, current_key.as_ref()) {
+                Some(pkey) => pkey,
+                None => return Ok(false),
             };
 
-            if let Some(value) = self.read_index_value_by_index_key(current_key.as_ref())? {
+            if let Some(value) = self.read_index_value_by_pkey(pkey)? {
                 if self.match_index_filter(&value)? {
                     self.stack.push(value);
                     return Ok(true);
@@ -253,13 +257,13 @@ impl VM {
         Ok(true)
     }
 
-    fn read_index_value_by_index_key(&mut self, index_key: &[u8]) -> Result<Option<Bson>> {
-        let slices = crate::utils::bson::split_stacked_keys(index_key)?;
-        let pkey = slices.last().expect("pkey must exist");
-
+    fn read_index_value_by_pkey(&mut self, pkey: &[u8]) -> Result<Option<Bson>> {
+        let cursor = self.r1.as_ref().unwrap();
+        let slices = crate::utils::bson::split_stacked_keys(cursor.prefix_bytes.as_slice())?;
         let col_name = &slices[1];
 
-        let pkey_in_kv = crate::utils::bson::stacked_key(vec![col_name, pkey])?;
+        let mut pkey_in_kv = crate::utils::bson::stacked_key([col_name])?;
+        pkey_in_kv.extend_from_slice(pkey);
 
         let db_iter = self.txn.rocksdb_txn.new_iterator();
         db_iter.seek_to_first();
-- 
2.43.0


From 1c52a34730c813506e92a76607d553d6db1f618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 39/45] fix: undo a failed statement of a transaction that goes
 on

A write that failed inside of an explicit transaction (for example an
update of several documents that hit a duplicate key) left what it had
done so far in the transaction. Committing it stored two documents with
one value of a unique index, or documents without their index entries.
Statements are now undone to a savepoint.
---
 src/polodb_core/coll/txn_collection.rs        | 37 +++++++++-------
 src/polodb_core/db/rocksdb_iterator.rs        |  6 +--
 src/polodb_core/db/rocksdb_transaction.rs     | 44 +++++++++++++++++++
 .../transaction/transaction_inner.rs          | 14 ++++++
 4 files changed, 81 insertions(+), 20 deletions(-)

diff --git a/src/polodb_core/coll/txn_collection.rs b/src/polodb_core/coll/txn_collection.rs
index f0aa9fb..a3c4ef0 100644
--- a/src/polodb_core/coll/txn_collection.rs
+++ b/src/polodb_core/coll/txn_collection.rs
@@ -57,97 +57,100 @@ impl<T> CollectionT<T> for TransactionalCollection<T> {
 
     fn update_one(&self, query: Document, update: Document) -> crate::Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_one(
+        let result = self.txn.run_statement(|| db.update_one(
             &self.name,
             query,
             update,
             UpdateOptions::default(),
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn update_one_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> crate::Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_one(
+        let result = self.txn.run_statement(|| db.update_one(
             &self.name,
             query,
             update,
             options,
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn update_many(&self, query: Document, update: Document) -> crate::Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_many(
+        let result = self.txn.run_statement(|| db.update_many(
             &self.name,
             query,
             update,
             UpdateOptions::default(),
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn update_many_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_many(
+        let result = self.txn.run_statement(|| db.update_many(
             &self.name,
             query,
             update,
             options,
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn delete_one(&self, query: Document) -> crate::Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.delete_one(&self.name, query, &self.txn)?;
+        let result = self.txn.run_statement(|| db.delete_one(&self.name, query, &self.txn))?;
         Ok(result)
     }
 
     fn delete_many(&self, query: Document) -> crate::Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.delete_many(&self.name, query, &self.txn)?;
+        let result = self.txn.run_statement(|| db.delete_many(&self.name, query, &self.txn))?;
         Ok(result)
     }
 
     fn create_index(&self, index: IndexModel) -> crate::Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        db.create_index(&self.name, index, &self.txn)?;
+        self.txn.run_statement(|| db.create_index(&self.name, index, &self.txn))?;
         Ok(())
     }
 
     fn drop_index(&self, name: impl AsRef<str>) -> Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        db.drop_index(&self.name, name.as_ref(), &self.txn)?;
+        self.txn.run_statement(|| db.drop_index(&self.name, name.as_ref(), &self.txn))?;
         Ok(())
     }
 
     fn drop(&self) -> crate::Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        db.drop_collection(&self.name, &self.txn)?;
+        self.txn.run_statement(|| db.drop_collection(&self.name, &self.txn))?;
         Ok(())
     }
 
     fn insert_one(&self, doc: impl Borrow<T>) -> crate::Result<InsertOneResult>
     where T: Serialize {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.insert_one(
+        let doc = bson::to_document(doc.borrow())?;
+        let result = self.txn.run_statement(|| db.insert_one(
             &self.name,
-            bson::to_document(doc.borrow())?,
+            doc,
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn insert_many(&self, docs: impl IntoIterator<Item = impl Borrow<T>>) -> crate::Result<InsertManyResult>
     where T: Serialize {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.insert_many(&self.name, docs, &self.txn)?;
+        // the iterator may use the transaction itself
+        let docs = docs.into_iter().collect::<Vec<_>>();
+        let result = self.txn.run_statement(|| db.insert_many(&self.name, docs, &self.txn))?;
         Ok(result)
     }
 
diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index 0014591..890c618 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -73,7 +73,7 @@ impl RocksDBIterator {
 }
 
 /// The iterator reads the changes of the transaction, which are gone once it has been
-/// committed or rolled back. All the accesses hold the lock of the transaction.
+/// committed or rolled back, or a statement of it has been undone. All the accesses hold the lock of the transaction.
 pub(crate) struct RocksDBIteratorInner {
     inner: *mut ffi::rocksdb_iterator_t,
     _read_options: RocksDBReadOptions,
@@ -110,7 +110,7 @@ impl RocksDBIteratorInner {
         }
     }
 
-    /// None if the transaction has been committed or rolled back
+    /// None if the transaction has been committed or rolled back (also to a savepoint)
     fn lock_txn(&self) -> Option<MutexGuard<'_, RocksDBTransactionInner>> {
         let txn = self.txn.lock().unwrap();
         if txn.epoch() == self.txn_epoch {
@@ -169,7 +169,7 @@ impl RocksDBIteratorInner {
         let txn = match self.lock_txn() {
             Some(txn) => txn,
             None => {
-                return Err(crate::Error::RocksDbErr("the transaction of the cursor is finished".to_owned()));
+                return Err(crate::Error::RocksDbErr("the transaction of the cursor is finished, or a failed statement of it was undone".to_owned()));
             }
         };
         unsafe {
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 93f95e9..87ed92a 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -95,6 +95,25 @@ impl RocksDBTransaction {
         inner.delete(key)
     }
 
+    /// Run a statement: if it fails, the changes that it has made so far are undone.
+    ///
+    /// Statements of one transaction must not overlap.
+    pub fn run_statement<T>(&self, statement: impl FnOnce() -> Result<T>) -> Result<T> {
+        let write_count = {
+            let inner = self.inner.lock().unwrap();
+            inner.set_savepoint();
+            inner.write_count()
+        };
+        let result = statement();
+        if result.is_err() {
+            let inner = self.inner.lock().unwrap();
+            if inner.write_count() != write_count {
+                inner.rollback_to_savepoint()?;
+            }
+        }
+        result
+    }
+
     pub fn rollback(&self) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.rollback()
@@ -149,6 +168,7 @@ pub(crate) struct RocksDBTransactionInner {
     pub(crate) iter_count: AtomicU64,
     // counts the commits and rollbacks, which discard what the iterators read
     epoch: AtomicU64,
+    write_count: AtomicU64,
 }
 
 unsafe impl Send for RocksDBTransactionInner {}
@@ -178,11 +198,13 @@ impl RocksDBTransactionInner {
                 db_inner,
                 iter_count: AtomicU64::new(0),
                 epoch: AtomicU64::new(0),
+                write_count: AtomicU64::new(0),
             })
         }
     }
 
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
+        _ = self.write_count.fetch_add(1, Ordering::SeqCst);
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
@@ -251,6 +273,7 @@ impl RocksDBTransactionInner {
     }
 
     pub fn delete(&self, key: &[u8]) -> Result<()> {
+        _ = self.write_count.fetch_add(1, Ordering::SeqCst);
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
@@ -270,6 +293,27 @@ impl RocksDBTransactionInner {
         self.epoch.load(Ordering::SeqCst)
     }
 
+    pub(crate) fn write_count(&self) -> u64 {
+        self.write_count.load(Ordering::SeqCst)
+    }
+
+    pub fn set_savepoint(&self) {
+        unsafe {
+            ffi::rocksdb_transaction_set_savepoint(self.inner);
+        }
+    }
+
+    pub fn rollback_to_savepoint(&self) -> Result<()> {
+        _ = self.epoch.fetch_add(1, Ordering::SeqCst);
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            ffi::rocksdb_transaction_rollback_to_savepoint(self.inner, &mut err);
+
+            check_err!(err);
+            Ok(())
+        }
+    }
+
     pub fn rollback(&self) -> Result<()> {
         _ = self.epoch.fetch_add(1, Ordering::SeqCst);
         unsafe {
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index 64a7034..78cd3d8 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -12,12 +12,15 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use std::sync::{Arc, Mutex};
 use crate::db::RocksDBTransaction;
 
 #[derive(Clone)]
 pub(crate) struct TransactionInner {
     pub(crate) rocksdb_txn: RocksDBTransaction,
     auto_commit: bool,
+    // held while a statement, commit or rollback is running
+    statement_lock: Arc<Mutex<()>>,
 }
 
 impl TransactionInner {
@@ -26,6 +29,7 @@ impl TransactionInner {
         TransactionInner {
             rocksdb_txn,
             auto_commit: true,
+            statement_lock: Arc::new(Mutex::new(())),
         }
     }
 
@@ -37,6 +41,7 @@ impl TransactionInner {
         TransactionInner {
             rocksdb_txn: self.rocksdb_txn.read_view(),
             auto_commit: self.auto_commit,
+            statement_lock: self.statement_lock.clone(),
         }
     }
 
@@ -60,8 +65,16 @@ impl TransactionInner {
         self.rocksdb_txn.delete(key)
     }
 
+    /// Run a statement of an explicit transaction, which can go on after the statement
+    /// has failed: a failed statement leaves no change behind.
+    pub fn run_statement<T>(&self, statement: impl FnOnce() -> crate::Result<T>) -> crate::Result<T> {
+        let _guard = self.statement_lock.lock()?;
+        self.rocksdb_txn.run_statement(statement)
+    }
+
     #[inline]
     pub fn commit(&self) -> crate::Result<()> {
+        let _guard = self.statement_lock.lock()?;
         self.rocksdb_txn.commit()
     }
 
@@ -75,6 +88,7 @@ impl TransactionInner {
 
     #[inline]
     pub fn rollback(&self) -> crate::Result<()> {
+        let _guard = self.statement_lock.lock()?;
         self.rocksdb_txn.rollback()
     }
 
-- 
2.43.0


From 0116eb709e82a1df94b72671fbc22574d46c2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 40/45] fix: undo only a failed statement that has changed
 something

---
 src/polodb_core/db/rocksdb_transaction.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 87ed92a..9b40dd3 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -204,7 +204,6 @@ impl RocksDBTransactionInner {
     }
 
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
-        _ = self.write_count.fetch_add(1, Ordering::SeqCst);
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
@@ -218,6 +217,7 @@ impl RocksDBTransactionInner {
             );
 
             check_err!(err);
+            _ = self.write_count.fetch_add(1, Ordering::SeqCst);
             Ok(())
         }
     }
@@ -273,7 +273,6 @@ impl RocksDBTransactionInner {
     }
 
     pub fn delete(&self, key: &[u8]) -> Result<()> {
-        _ = self.write_count.fetch_add(1, Ordering::SeqCst);
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
@@ -285,6 +284,7 @@ impl RocksDBTransactionInner {
             );
 
             check_err!(err);
+            _ = self.write_count.fetch_add(1, Ordering::SeqCst);
             Ok(())
         }
     }
-- 
2.43.0


From c7e98041d0d1712c000dfb29b6995f159e33c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 41/45] fix: refuse to write in a transaction that is committed

---
 src/polodb_core/transaction/transaction_inner.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index 78cd3d8..74307b6 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -12,8 +12,10 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Mutex};
 use crate::db::RocksDBTransaction;
+use crate::Error;
 
 #[derive(Clone)]
 pub(crate) struct TransactionInner {
@@ -21,6 +23,7 @@ pub(crate) struct TransactionInner {
     auto_commit: bool,
     // held while a statement, commit or rollback is running
     statement_lock: Arc<Mutex<()>>,
+    committed: Arc<AtomicBool>,
 }
 
 impl TransactionInner {
@@ -30,6 +33,7 @@ impl TransactionInner {
             rocksdb_txn,
             auto_commit: true,
             statement_lock: Arc::new(Mutex::new(())),
+            committed: Arc::new(AtomicBool::new(false)),
         }
     }
 
@@ -42,6 +46,7 @@ impl TransactionInner {
             rocksdb_txn: self.rocksdb_txn.read_view(),
             auto_commit: self.auto_commit,
             statement_lock: self.statement_lock.clone(),
+            committed: self.committed.clone(),
         }
     }
 
@@ -69,13 +74,19 @@ impl TransactionInner {
     /// has failed: a failed statement leaves no change behind.
     pub fn run_statement<T>(&self, statement: impl FnOnce() -> crate::Result<T>) -> crate::Result<T> {
         let _guard = self.statement_lock.lock()?;
+        if self.committed.load(Ordering::SeqCst) {
+            // RocksDB would take the write, and lose it
+            return Err(Error::NoTransactionStarted);
+        }
         self.rocksdb_txn.run_statement(statement)
     }
 
     #[inline]
     pub fn commit(&self) -> crate::Result<()> {
         let _guard = self.statement_lock.lock()?;
-        self.rocksdb_txn.commit()
+        self.rocksdb_txn.commit()?;
+        self.committed.store(true, Ordering::SeqCst);
+        Ok(())
     }
 
     pub(crate) fn auto_commit(&self) -> crate::Result<()> {
-- 
2.43.0


From 6e2a746a24d45354dd350dd317c7a5a4e63f82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 42/45] fix: a cursor that reads a document it cannot
 deserialize

---
 src/polodb_core/db/client_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/client_cursor.rs b/src/polodb_core/db/client_cursor.rs
index 6507fe5..82b8521 100644
--- a/src/polodb_core/db/client_cursor.rs
+++ b/src/polodb_core/db/client_cursor.rs
@@ -82,7 +82,7 @@ impl<T> Iterator for ClientCursor<T>
         match test {
             Ok(false) => None,
             Ok(true) => {
-                Some(Ok(bson::from_bson(self.get().clone()).unwrap()))
+                Some(self.deserialize_current())
             }
             Err(err) =>{
                 Some(Err(err))
-- 
2.43.0


From 631502a0b365e1549ee6aa3c0c3b89a35bbfa06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 43/45] fix: conditions without a condition matched everything,
 or missed the first document

---
 src/polodb_core/vm/codegen.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index cf3718f..b749cb2 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -516,8 +516,7 @@ impl Codegen {
         is_tail: bool,
     ) -> Result<()> {
         if query_doc.is_empty() {
-            self.emit(DbOp::StoreR0_2);
-            self.emit_u8(1);
+            self.emit_store_r0(1);
             return Ok(());
         }
         let last = query_doc.len() - 1;
@@ -546,12 +545,21 @@ impl Codegen {
         self.paths.last().unwrap().as_str()
     }
 
+    fn emit_store_r0(&mut self, value: u8) {
+        self.emit(DbOp::StoreR0_2);
+        self.emit_u8(value);
+    }
+
     fn emit_logic_and(
         &mut self,
         arr: &Array,
         not_found_label: Label,
         is_tail: bool,
     ) -> Result<()> {
+        if arr.is_empty() {
+            self.emit_store_r0(1);
+            return Ok(());
+        }
         for (index, item_doc_value) in arr.iter().enumerate() {
             let path_msg = format!("[{}]", index);
             crate::path_hint!(self, path_msg, {
@@ -567,6 +575,11 @@ impl Codegen {
     // is_tail: nothing is left to be compared after the $or,
     // otherwise the execution goes on behind it if one of the items matches.
     fn emit_logic_or(&mut self, arr: &Array, ret_label: Label, is_tail: bool) -> Result<()> {
+        if arr.is_empty() {
+            self.emit_store_r0(0);
+            self.emit_goto(DbOp::Goto, ret_label);
+            return Ok(());
+        }
         let cmp_label = self.new_label();
         self.emit_goto(DbOp::Goto, cmp_label);
 
@@ -950,6 +963,10 @@ impl Codegen {
         is_in_not: bool,
         not_found_label: Label,
     ) -> Result<()> {
+        if value.is_empty() {
+            self.emit_store_r0(1);
+            return Ok(());
+        }
         for (sub_key, sub_value) in value.iter() {
             crate::path_hint!(self, sub_key.clone(), {
                 self.emit_query_tuple_document_kv(
-- 
2.43.0


From f1e88e40ebc66c2949ef875b2164cc344ee0b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 44/45] fix: an index on a collection without a name created it

---
 src/polodb_core/db/db_inner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 64d6593..14a0487 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -246,6 +246,9 @@ impl DatabaseInner {
         let mut collection_spec = match self.lock_collection_meta(txn, col_name, true)? {
             Some(spec) => spec,
             None => {
+                if col_name.is_empty() {
+                    return Err(Error::IllegalCollectionName(col_name.to_string()));
+                }
                 let uuid = uuid::Uuid::now_v1(&self.node_id);
                 CollectionSpecification::new(col_name.to_string(), uuid)
             }
-- 
2.43.0


From ccf0b35818be8e21769cf78e541975ee0ebc010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 45/45] fix: compare integers and doubles by their exact values

---
 src/polodb_core/index/index_helper.rs | 17 ++++++++++-------
 src/polodb_core/utils/bson.rs         | 19 +++++++++++++------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 23bf87e..ab4afc8 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -77,18 +77,21 @@ pub(crate) fn pkey_of_index_entry<'a>(value_key: &[u8], entry: &'a [u8]) -> Opti
 
 /// The values with another type which equal the number: see `value_cmp`
 pub(crate) fn equal_numbers(value: &Bson) -> Vec<Bson> {
-    const MAX_SAFE: f64 = 9007199254740992.0;
+    const TWO_63: f64 = 9223372036854775808.0;
 
-    let (int, double) = match value {
-        Bson::Int32(i) => (*i as i64, *i as f64),
-        Bson::Int64(i) => (*i, *i as f64),
-        Bson::Double(d) if d.fract() == 0.0 && d.abs() <= MAX_SAFE && d.to_bits() != (-0.0_f64).to_bits() => {
-            (*d as i64, *d)
+    let int = match value {
+        Bson::Int32(i) => *i as i64,
+        Bson::Int64(i) => *i,
+        Bson::Double(d) if d.fract() == 0.0 && (-TWO_63..TWO_63).contains(d) && d.to_bits() != (-0.0_f64).to_bits() => {
+            *d as i64
         }
         _ => return vec![],
     };
 
-    let mut result = vec![Bson::Double(double), Bson::Int64(int)];
+    let mut result = vec![Bson::Int64(int)];
+    if int as f64 as i128 == int as i128 {
+        result.push(Bson::Double(int as f64));
+    }
     if let Ok(int32) = i32::try_from(int) {
         result.push(Bson::Int32(int32));
     }
diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index fbbc9bb..653a741 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -174,6 +174,17 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
     Ok(result)
 }
 
+/// Compares the exact values: most integers above 2^53 are not doubles
+fn int_double_cmp(int: i64, double: f64) -> Ordering {
+    const TWO_63: f64 = 9223372036854775808.0;
+
+    match (int as f64).total_cmp(&double) {
+        Ordering::Equal if double >= TWO_63 => Ordering::Less,
+        Ordering::Equal => int.cmp(&(double as i64)),
+        ord => ord,
+    }
+}
+
 pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
     match (a, b) {
         (Bson::Null, Bson::Null) => Ok(Ordering::Equal),
@@ -196,17 +207,13 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
             Ok(d1.total_cmp(&f))
         },
         (Bson::Double(d1), Bson::Int64(d2)) => {
-            let f = *d2 as f64;
-            Ok(d1.total_cmp(&f))
+            Ok(int_double_cmp(*d2, *d1).reverse())
         },
         (Bson::Int32(i1), Bson::Double(d2)) => {
             let f = *i1 as f64;
             Ok(f.total_cmp(d2))
         }
-        (Bson::Int64(i1), Bson::Double(d2)) => {
-            let f = *i1 as f64;
-            Ok(f.total_cmp(d2))
-        }
+        (Bson::Int64(i1), Bson::Double(d2)) => Ok(int_double_cmp(*i1, *d2)),
         (Bson::Binary(b1), Bson::Binary(b2)) => Ok(b1.bytes.cmp(&b2.bytes)),
         (Bson::String(str1), Bson::String(str2)) => Ok(str1.cmp(str2)),
         (Bson::ObjectId(oid1), Bson::ObjectId(oid2)) => Ok(oid1.cmp(oid2)),
-- 
2.43.0

