From 40c8597c01cadc064dbcbbe56fbd58c24b575858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 01/30] verif: I/O tap and facade for the external harness (cfg
 axverif)

---
 crates/axmos-db/src/io/disk/mod.rs    |  10 +
 crates/axmos-db/src/lib.rs            |   3 +
 crates/axmos-db/src/schema/catalog.rs |   6 +
 crates/axmos-db/src/verif.rs          | 691 ++++++++++++++++++++++++++
 4 files changed, 710 insertions(+)
 create mode 100644 crates/axmos-db/src/verif.rs

diff --git a/crates/axmos-db/src/io/disk/mod.rs b/crates/axmos-db/src/io/disk/mod.rs
index 014a576..273a839 100644
--- a/crates/axmos-db/src/io/disk/mod.rs
+++ b/crates/axmos-db/src/io/disk/mod.rs
@@ -154,6 +154,8 @@ impl Write for DBFile {
     }
 
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        #[cfg(axverif)]
+        crate::verif::tap::on_write(&self.p, &mut self.f, buf)?;
         self.f.write(buf)
     }
 }
@@ -170,6 +172,8 @@ impl FileOperations for DBFile {
         if let Some(parent) = path.as_ref().parent() {
             fs::create_dir_all(parent)?
         }
+        #[cfg(axverif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::Create { path: path.as_ref() })?;
 
         // We create the file with the following flags:
         let f = FileSystem::options()
@@ -203,16 +207,22 @@ impl FileOperations for DBFile {
 
     // Forcefully remove he file
     fn remove(path: impl AsRef<Path>) -> io::Result<()> {
+        #[cfg(axverif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::Remove { path: path.as_ref() })?;
         fs::remove_file(path)
     }
 
     // truncate the file to 0 len
     fn truncate(&mut self) -> io::Result<()> {
+        #[cfg(axverif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::SetLen { path: &self.p, len: 0 })?;
         self.f.set_len(0)
     }
 
     // sync the file to disk
     fn sync_all(&self) -> io::Result<()> {
+        #[cfg(axverif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::Sync { path: &self.p })?;
         File::sync_all(&self.f)
     }
 }
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index e17afb4..da2920b 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -4,6 +4,7 @@
 #![feature(debug_closure_helpers)]
 #![feature(trait_alias)]
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #![allow(unused_assignments)]
 #![allow(unused_variables)]
 #![feature(slice_ptr_get)]
@@ -23,6 +24,8 @@ mod storage;
 pub mod tcp;
 mod tree;
 pub mod types;
+#[cfg(axverif)]
+pub mod verif;
 
 pub use common::*;
 /// Jemalloc apparently has better alignment guarantees than rust's standard allocator.
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 92aa7a1..bee2180 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -127,6 +127,12 @@ impl Catalog {
         }
     }
 
+    /// Root pages of the two catalog trees.
+    #[cfg(axverif)]
+    pub(crate) fn roots_for_verif(&self) -> (PageId, PageId) {
+        (self.meta_table, self.meta_index)
+    }
+
     /// Converts a relation into a meta table tuple for storage.
     pub(crate) fn relation_as_meta_table_tuple(
         relation: &Relation,
diff --git a/crates/axmos-db/src/verif.rs b/crates/axmos-db/src/verif.rs
new file mode 100644
index 0000000..310a42c
--- /dev/null
+++ b/crates/axmos-db/src/verif.rs
@@ -0,0 +1,691 @@
+//! Verification facade. Only compiled with `--cfg axverif`; never part of a normal build.
+//!
+//! Gives an external harness access to the crate-private write-ahead log, B+tree, tuple and pager
+//! layers through plain wrapper types, a raw dump of the page graph, and an I/O tap that reports
+//! every mutation of the files behind [`crate::io::disk::DBFile`].
+use crate::{
+    DBConfig, Database, PageId, TransactionId,
+    io::{
+        disk::FileOperations,
+        pager::{BtreeBuilder, Pager, SharedPager},
+        wal::WriteAheadLog,
+    },
+    multithreading::coordinator::Snapshot,
+    schema::{
+        Column, Schema,
+        base::Relation,
+        meta_index_schema, meta_table_schema,
+    },
+    storage::{
+        BtreeMetadata, BtreeOps,
+        page::{BtreePage, OverflowPage},
+        tuple::{Row, Tuple, TupleBuilder, TupleReader, TupleRef},
+        wal::{OwnedRecord, RecordType},
+    },
+    tree::{
+        accessor::{BtreePagePosition, BtreeWriteAccessor},
+        bplustree::{Btree, SearchResult},
+    },
+    types::{DataType, DataTypeKind},
+};
+use std::{collections::HashMap, io::Write, path::Path};
+
+/// Recording of every mutation made through [`crate::io::disk::DBFile`].
+pub mod tap {
+    use std::{
+        fs::File,
+        io::{self, Seek},
+        path::Path,
+        sync::{Arc, RwLock},
+    };
+
+    #[derive(Debug)]
+    pub enum IoEvent<'a> {
+        /// The file is created (or truncated to zero if it was there).
+        Create { path: &'a Path },
+        Write { path: &'a Path, offset: u64, data: &'a [u8] },
+        SetLen { path: &'a Path, len: u64 },
+        Sync { path: &'a Path },
+        Remove { path: &'a Path },
+    }
+
+    /// Called before the operation is carried out; an error makes the operation fail with it.
+    pub trait Sink: Send + Sync {
+        fn event(&self, ev: &IoEvent<'_>) -> io::Result<()>;
+    }
+
+    static SINK: RwLock<Option<Arc<dyn Sink>>> = RwLock::new(None);
+
+    pub fn install(sink: Option<Arc<dyn Sink>>) {
+        *SINK.write().unwrap_or_else(|e| e.into_inner()) = sink;
+    }
+
+    pub(crate) fn emit(ev: IoEvent<'_>) -> io::Result<()> {
+        let sink = SINK.read().unwrap_or_else(|e| e.into_inner()).clone();
+        match sink {
+            Some(s) => s.event(&ev),
+            None => Ok(()),
+        }
+    }
+
+    pub(crate) fn on_write(path: &Path, file: &mut File, data: &[u8]) -> io::Result<()> {
+        let has_sink = SINK.read().unwrap_or_else(|e| e.into_inner()).is_some();
+        if has_sink {
+            let offset = file.stream_position()?;
+            emit(IoEvent::Write { path, offset, data })?;
+        }
+        Ok(())
+    }
+}
+
+type R<T> = Result<T, String>;
+
+fn es<E: std::fmt::Display>(e: E) -> String {
+    e.to_string()
+}
+
+// ---------------------------------------------------------------- write-ahead log
+
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct LogRecord {
+    pub lsn: u64,
+    pub tid: u64,
+    pub prev_lsn: Option<u64>,
+    pub object_id: Option<u64>,
+    pub row_id: Option<u64>,
+    pub kind: u8,
+    pub undo: Vec<u8>,
+    pub redo: Vec<u8>,
+}
+
+pub const RECORD_KINDS: [u8; 10] = [0, 1, 2, 3, 6, 7, 8, 9, 10, 11];
+
+fn record_kind(kind: u8) -> RecordType {
+    match kind {
+        0x00 => RecordType::Begin,
+        0x01 => RecordType::Commit,
+        0x02 => RecordType::Abort,
+        0x03 => RecordType::End,
+        0x06 => RecordType::Update,
+        0x07 => RecordType::Delete,
+        0x08 => RecordType::Insert,
+        0x09 => RecordType::Create,
+        0x0A => RecordType::Drop,
+        0x0B => RecordType::Alter,
+        k => panic!("no record kind {k}"),
+    }
+}
+
+/// What [`WriteAheadLog::run_analysis`] found.
+#[derive(Debug, Clone, Default, PartialEq, Eq)]
+pub struct AnalysisView {
+    pub needs_undo: Vec<u64>,
+    pub needs_redo: Vec<u64>,
+    pub chains: Vec<(u64, Vec<u64>)>,
+    pub inserts: Vec<u64>,
+    pub deletes: Vec<u64>,
+    pub updates: Vec<u64>,
+    pub creates: Vec<u64>,
+    pub alters: Vec<u64>,
+    pub drops: Vec<u64>,
+}
+
+pub struct VLog(WriteAheadLog);
+
+impl VLog {
+    pub fn create(path: &Path) -> R<Self> {
+        WriteAheadLog::create(path).map(Self).map_err(es)
+    }
+    pub fn open(path: &Path) -> R<Self> {
+        WriteAheadLog::open(path).map(Self).map_err(es)
+    }
+    pub fn max_record_size(&self) -> usize {
+        self.0.max_record_size()
+    }
+    pub fn last_lsn(&self) -> Option<u64> {
+        self.0.last_lsn()
+    }
+    /// Appends the record; its lsn is assigned the way [`Pager::push_to_log`] does it.
+    pub fn append(&mut self, r: &LogRecord) -> R<u64> {
+        let lsn = self.0.last_lsn().map(|l| l + 1).unwrap_or(0);
+        let rec = OwnedRecord::new(
+            lsn,
+            r.tid,
+            r.prev_lsn,
+            r.object_id,
+            r.row_id,
+            record_kind(r.kind),
+            &r.undo,
+            &r.redo,
+        );
+        self.0.push(rec).map_err(es)?;
+        Ok(lsn)
+    }
+    pub fn force(&mut self) -> R<()> {
+        self.0.perform_flush().map_err(es)
+    }
+    pub fn truncate(&mut self) -> R<()> {
+        self.0.truncate().map_err(es)
+    }
+    pub fn read_all(&mut self, read_ahead: usize) -> R<Vec<LogRecord>> {
+        let mut out = Vec::new();
+        let mut reader = self.0.reader(read_ahead).map_err(es)?;
+        while let Some(r) = reader.next_ref().map_err(es)? {
+            let m = *r.metadata();
+            out.push(LogRecord {
+                lsn: r.lsn(),
+                tid: r.tid(),
+                prev_lsn: m.prev_lsn,
+                object_id: m.object_id,
+                row_id: m.row_id,
+                kind: r.log_type() as u8,
+                undo: r.undo_payload().to_vec(),
+                redo: r.redo_payload().to_vec(),
+            });
+            if out.len() > 5_000_000 {
+                return Err("log reader does not terminate".into());
+            }
+        }
+        Ok(out)
+    }
+    pub fn analysis(&mut self) -> R<AnalysisView> {
+        let a = self.0.run_analysis().map_err(es)?;
+        Ok(AnalysisView {
+            needs_undo: a.needs_undo.iter().copied().collect(),
+            needs_redo: a.needs_redo.iter().copied().collect(),
+            chains: a.lsn_chains.iter().map(|(k, v)| (*k, v.clone())).collect(),
+            inserts: a.insert_ops.keys().copied().collect(),
+            deletes: a.delete_ops.keys().copied().collect(),
+            updates: a.update_ops.keys().copied().collect(),
+            creates: a.create_ops.keys().copied().collect(),
+            alters: a.alter_ops.keys().copied().collect(),
+            drops: a.drop_ops.keys().copied().collect(),
+        })
+    }
+}
+
+// ---------------------------------------------------------------- snapshots and tuples
+
+#[derive(Debug, Clone, Default)]
+pub struct SnapshotSpec {
+    pub xid: u64,
+    pub xmin: u64,
+    pub xmax: Option<u64>,
+    pub active: Vec<u64>,
+    pub aborted: Vec<u64>,
+}
+
+impl SnapshotSpec {
+    fn build(&self) -> Snapshot {
+        Snapshot::new(
+            self.xid,
+            self.xmin,
+            self.xmax,
+            self.active.iter().copied().collect(),
+            self.aborted.iter().copied().collect(),
+        )
+    }
+    pub fn sees(&self, txid: u64) -> bool {
+        self.build().is_committed_before_snapshot(txid)
+    }
+}
+
+fn make_schema(kinds: &[DataTypeKind], num_keys: usize) -> Schema {
+    let cols: Vec<Column> = kinds
+        .iter()
+        .enumerate()
+        .map(|(i, k)| Column::new_with_defaults(*k, &format!("c{i}")))
+        .collect();
+    Schema::new_table_with_num_keys(cols, num_keys)
+}
+
+/// One stored row.
+#[derive(Clone)]
+pub struct VTuple {
+    schema: Schema,
+    tuple: Tuple,
+}
+
+impl VTuple {
+    pub fn build(kinds: &[DataTypeKind], num_keys: usize, row: &[DataType], xmin: u64) -> R<Self> {
+        let schema = make_schema(kinds, num_keys);
+        let tuple = TupleBuilder::from_schema(&schema)
+            .build(&Row::from(row), xmin)
+            .map_err(es)?;
+        Ok(Self { schema, tuple })
+    }
+    /// Value indexes count from the first non-key column.
+    pub fn add_version(&mut self, changes: &[(usize, DataType)], xid: u64) -> R<()> {
+        let m: HashMap<usize, DataType> = changes.iter().cloned().collect();
+        self.tuple
+            .add_version_with(&m, xid, &self.schema)
+            .map_err(es)
+    }
+    pub fn delete(&mut self, xid: u64) -> R<()> {
+        self.tuple.delete(xid).map_err(es)
+    }
+    pub fn vacuum(&mut self, horizon: u64) -> R<usize> {
+        self.tuple.vaccum_with(horizon, &self.schema).map_err(es)
+    }
+    pub fn bytes(&self) -> Vec<u8> {
+        self.tuple.effective_data().to_vec()
+    }
+    /// Store and load again.
+    pub fn reload(&mut self) -> R<()> {
+        let bytes = self.bytes();
+        self.tuple = Tuple::from_slice_unchecked(&bytes).map_err(es)?;
+        Ok(())
+    }
+    pub fn num_versions(&self) -> R<usize> {
+        self.tuple.num_versions_with(&self.schema).map_err(es)
+    }
+    pub fn xmax(&self) -> Option<u64> {
+        self.tuple.xmax()
+    }
+    pub fn decode(&self, snap: &SnapshotSpec) -> R<Option<Vec<DataType>>> {
+        let snapshot = snap.build();
+        decode_for(self.tuple.effective_data(), &self.schema, &snapshot)
+    }
+    pub fn decode_last(&self) -> R<Vec<DataType>> {
+        decode_last(self.tuple.effective_data(), &self.schema)
+    }
+}
+
+fn decode_for(bytes: &[u8], schema: &Schema, snapshot: &Snapshot) -> R<Option<Vec<DataType>>> {
+    Ok(
+        Row::from_bytes_checked_with_snapshot(bytes, schema, snapshot)
+            .map_err(es)?
+            .map(|r| r.into_inner().into_vec()),
+    )
+}
+
+fn decode_last(bytes: &[u8], schema: &Schema) -> R<Vec<DataType>> {
+    Ok(Row::from_bytes_checked(bytes, schema)
+        .map_err(es)?
+        .into_inner()
+        .into_vec())
+}
+
+// ---------------------------------------------------------------- pages
+
+#[derive(Debug, Clone)]
+pub struct CellDump {
+    pub left_child: Option<u64>,
+    pub overflow_page: Option<u64>,
+    /// Reassembled row (all columns, newest version), or why it can not be read.
+    pub row: R<Vec<DataType>>,
+    pub payload_len: usize,
+}
+
+#[derive(Debug, Clone)]
+pub struct BtreePageDump {
+    pub id: u64,
+    pub header_id: u64,
+    pub is_leaf: bool,
+    pub right_child: Option<u64>,
+    pub next: Option<u64>,
+    pub prev: Option<u64>,
+    pub free_space: u32,
+    pub page_size: u32,
+    pub cells: Vec<CellDump>,
+}
+
+#[derive(Debug, Clone)]
+pub struct OverflowPageDump {
+    pub id: u64,
+    pub header_id: u64,
+    pub next: Option<u64>,
+    pub num_bytes: u32,
+}
+
+#[derive(Debug, Clone, PartialEq)]
+pub struct HeaderView {
+    pub total_pages: u64,
+    pub first_free: Option<u64>,
+    pub last_free: Option<u64>,
+    pub last_created: u64,
+    pub last_committed: u64,
+    pub last_object: u64,
+    pub page_size: u32,
+    pub min_keys: u8,
+    pub siblings: u8,
+    pub cache_size: u16,
+    pub aborted: Vec<u64>,
+}
+
+#[derive(Debug, Clone)]
+pub struct RelationView {
+    pub id: u64,
+    pub name: String,
+    pub root: u64,
+    pub is_table: bool,
+    pub next_row_id: Option<u64>,
+    pub columns: Vec<(String, u8, bool)>,
+    pub num_keys: usize,
+    /// Creator / deleter of the catalog row.
+    pub xmin: u64,
+    pub xmax: Option<u64>,
+    pub has_stats: bool,
+    pub indexes: Vec<(u64, Vec<usize>)>,
+    schema: Schema,
+}
+
+fn header_of(pager: &SharedPager) -> HeaderView {
+    let p = pager.read();
+    let h = p.header_unchecked();
+    HeaderView {
+        total_pages: h.total_pages,
+        first_free: h.first_free_page,
+        last_free: h.last_free_page,
+        last_created: h.last_created_transaction,
+        last_committed: h.last_committed_transaction,
+        last_object: h.last_stored_object,
+        page_size: h.page_size,
+        min_keys: h.min_keys,
+        siblings: h.num_siblings_per_side,
+        cache_size: h.cache_size,
+        aborted: h.get_aborted_transactions(),
+    }
+}
+
+fn dump_btree(pager: &SharedPager, builder: &BtreeBuilder, root: u64, id: u64, schema: &Schema) -> R<BtreePageDump> {
+    let mut d = {
+        let mut p = pager.write();
+        p.with_page::<BtreePage, _, _>(id, |page| {
+            let m = page.metadata();
+            let n = page.num_slots();
+            BtreePageDump {
+                id,
+                header_id: m.page_number,
+                is_leaf: page.is_leaf(),
+                right_child: m.right_child,
+                next: m.next_sibling,
+                prev: m.previous_sibling,
+                free_space: m.free_space,
+                page_size: m.page_size,
+                cells: (0..n)
+                    .map(|i| {
+                        let c = page.cell(i);
+                        CellDump {
+                            left_child: c.left_child(),
+                            overflow_page: c.overflow_page(),
+                            row: Err("unread".into()),
+                            payload_len: c.len(),
+                        }
+                    })
+                    .collect(),
+            }
+        })
+        .map_err(es)?
+    };
+    for (i, c) in d.cells.iter_mut().enumerate() {
+        let mut t = builder.build_tree(root);
+        c.row = match t.with_cell_at(BtreePagePosition::new(id, i), |b| decode_last(b, schema)) {
+            Ok(r) => r,
+            Err(e) => Err(es(e)),
+        };
+    }
+    Ok(d)
+}
+
+fn dump_overflow(pager: &SharedPager, id: u64) -> R<OverflowPageDump> {
+    let mut p = pager.write();
+    p.with_page::<OverflowPage, _, _>(id, |page| {
+        let m = page.metadata();
+        OverflowPageDump {
+            id,
+            header_id: m.page_number,
+            next: m.next,
+            num_bytes: m.num_bytes,
+        }
+    })
+    .map_err(es)
+}
+
+// ---------------------------------------------------------------- trees
+
+/// A B+tree on a pager of its own.
+pub struct VTree {
+    pager: SharedPager,
+    builder: BtreeBuilder,
+    root: PageId,
+    schema: Schema,
+}
+
+impl VTree {
+    pub fn create(path: &Path, config: DBConfig, kinds: &[DataTypeKind], num_keys: usize) -> R<Self> {
+        let pager = SharedPager::from(Pager::from_config(config, path).map_err(es)?);
+        Self::on(pager, config, kinds, num_keys)
+    }
+    fn on(pager: SharedPager, config: DBConfig, kinds: &[DataTypeKind], num_keys: usize) -> R<Self> {
+        let root = pager.write().allocate_page::<BtreePage>().map_err(es)?;
+        let builder = BtreeBuilder::new(config.min_keys_per_page, config.num_siblings_per_side)
+            .with_pager(pager.clone());
+        Ok(Self {
+            pager,
+            builder,
+            root,
+            schema: make_schema(kinds, num_keys),
+        })
+    }
+    /// Another tree in the same file.
+    pub fn sibling(&self, config: DBConfig, kinds: &[DataTypeKind], num_keys: usize) -> R<Self> {
+        Self::on(self.pager.clone(), config, kinds, num_keys)
+    }
+    fn tree_mut(&self) -> Btree<BtreeWriteAccessor> {
+        self.builder.build_tree_mut(self.root)
+    }
+    fn tuple(&self, row: &[DataType]) -> R<Tuple> {
+        TupleBuilder::from_schema(&self.schema)
+            .build(&Row::from(row), 1)
+            .map_err(es)
+    }
+    /// The bytes a caller looks a key up with: the serialized key columns.
+    pub fn key_bytes(&self, row: &[DataType]) -> R<Vec<u8>> {
+        let keys = &row[..self.schema.num_keys()];
+        let mut size = 0usize;
+        for k in keys {
+            size = size.next_multiple_of(k.align().max(1)) + k.runtime_size();
+        }
+        let mut buf = vec![0u8; size];
+        let mut cursor = 0;
+        for k in keys {
+            cursor = k.write_to(&mut buf, cursor).map_err(es)?;
+        }
+        buf.truncate(cursor);
+        Ok(buf)
+    }
+    pub fn insert(&self, row: &[DataType]) -> R<()> {
+        let t = self.tuple(row)?;
+        self.tree_mut().insert(self.root, t, &self.schema).map_err(es)
+    }
+    pub fn upsert(&self, row: &[DataType]) -> R<()> {
+        let t = self.tuple(row)?;
+        self.tree_mut().upsert(self.root, t, &self.schema).map_err(es)
+    }
+    pub fn update(&self, row: &[DataType]) -> R<()> {
+        let t = self.tuple(row)?;
+        self.tree_mut().update(self.root, t, &self.schema).map_err(es)
+    }
+    pub fn remove_key(&self, row: &[DataType]) -> R<()> {
+        let k = self.key_bytes(row)?;
+        self.tree_mut().remove(self.root, &k, &self.schema).map_err(es)
+    }
+    pub fn remove_tuple(&self, row: &[DataType]) -> R<()> {
+        let t = self.tuple(row)?;
+        self.tree_mut()
+            .remove_tuple(self.root, &t, &self.schema)
+            .map_err(es)
+    }
+    /// Lookup by key bytes.
+    pub fn get(&self, row: &[DataType]) -> R<Option<Vec<DataType>>> {
+        let k = self.key_bytes(row)?;
+        let mut t = self.builder.build_tree(self.root);
+        match t.search(&k, &self.schema).map_err(es)? {
+            SearchResult::Found(pos) => {
+                let r = t
+                    .with_cell_at(pos, |b| decode_last(b, &self.schema))
+                    .map_err(es)??;
+                Ok(Some(r))
+            }
+            SearchResult::NotFound(_) => Ok(None),
+        }
+    }
+    /// Lookup by a whole tuple.
+    pub fn get_by_tuple(&self, row: &[DataType]) -> R<bool> {
+        let tp = self.tuple(row)?;
+        let mut t = self.builder.build_tree(self.root);
+        match t.search_tuple(&tp, &self.schema).map_err(es)? {
+            SearchResult::Found(_) => Ok(true),
+            SearchResult::NotFound(_) => Ok(false),
+        }
+    }
+    pub fn scan(&self) -> R<Vec<Vec<DataType>>> {
+        let mut t = self.builder.build_tree(self.root);
+        if t.is_empty().map_err(es)? {
+            return Ok(vec![]);
+        }
+        let mut out = Vec::new();
+        let mut positions = Vec::new();
+        for pos in t.iter_forward().map_err(es)? {
+            positions.push(pos.map_err(es)?);
+            if positions.len() > 2_000_000 {
+                return Err("scan does not terminate".into());
+            }
+        }
+        for pos in positions {
+            out.push(
+                t.with_cell_at(pos, |b| decode_last(b, &self.schema))
+                    .map_err(es)??,
+            );
+        }
+        Ok(out)
+    }
+    pub fn height(&self) -> R<usize> {
+        self.builder.build_tree(self.root).height().map_err(es)
+    }
+    pub fn is_empty(&self) -> R<bool> {
+        self.builder.build_tree(self.root).is_empty().map_err(es)
+    }
+    pub fn root(&self) -> u64 {
+        self.root
+    }
+    pub fn header(&self) -> HeaderView {
+        header_of(&self.pager)
+    }
+    pub fn page(&self, id: u64) -> R<BtreePageDump> {
+        dump_btree(&self.pager, &self.builder, self.root, id, &self.schema)
+    }
+    pub fn overflow(&self, id: u64) -> R<OverflowPageDump> {
+        dump_overflow(&self.pager, id)
+    }
+    pub fn dealloc(&self) -> R<()> {
+        self.tree_mut().dealloc().map_err(es)
+    }
+    pub fn checkpoint(&self) -> R<()> {
+        self.pager.write().flush().map_err(es)
+    }
+}
+
+// ---------------------------------------------------------------- whole database
+
+pub struct VDb<'a>(pub &'a Database);
+
+impl VDb<'_> {
+    fn builder(&self) -> BtreeBuilder {
+        let (k, s) = {
+            let p = self.0.pager().read();
+            (p.min_keys_per_page(), p.num_siblings_per_side())
+        };
+        BtreeBuilder::new(k, s).with_pager(self.0.pager().clone())
+    }
+    pub fn header(&self) -> HeaderView {
+        header_of(self.0.pager())
+    }
+    pub fn meta_roots(&self) -> (u64, u64) {
+        self.0.catalog().roots_for_verif()
+    }
+    /// Every catalog row that is physically there, whoever wrote or deleted it.
+    pub fn relations(&self) -> R<Vec<RelationView>> {
+        let schema = meta_table_schema();
+        let (root, _) = self.meta_roots();
+        let mut t = self.builder().build_tree(root);
+        if t.is_empty().map_err(es)? {
+            return Ok(vec![]);
+        }
+        let mut positions = Vec::new();
+        for pos in t.iter_forward().map_err(es)? {
+            positions.push(pos.map_err(es)?);
+            if positions.len() > 1_000_000 {
+                return Err("catalog scan does not terminate".into());
+            }
+        }
+        let mut out = Vec::new();
+        for pos in positions {
+            let (rel, xmin, xmax) = t
+                .with_cell_at(pos, |b| -> R<_> {
+                    let layout = TupleReader::from_schema(&schema)
+                        .parse_last_version(b)
+                        .map_err(es)?;
+                    let r = TupleRef::new(b, layout);
+                    let (xmin, xmax) = (r.global_xmin(), r.global_xmax());
+                    let row = r.to_row_with(&schema).map_err(es)?;
+                    Ok((Relation::from_meta_table_row(row), xmin, xmax))
+                })
+                .map_err(es)??;
+            out.push(RelationView {
+                id: rel.object_id(),
+                name: rel.name().to_string(),
+                root: rel.root(),
+                is_table: rel.is_table(),
+                next_row_id: if rel.is_table() { Some(rel.next_row_id().0) } else { None },
+                columns: rel
+                    .schema()
+                    .columns()
+                    .iter()
+                    .map(|c| (c.name().to_string(), c.datatype() as u8, c.is_non_null))
+                    .collect(),
+                num_keys: rel.schema().num_keys(),
+                xmin,
+                xmax,
+                has_stats: rel.stats().is_some(),
+                indexes: if rel.is_table() {
+                    rel.get_indexes()
+                        .iter()
+                        .map(|h| (h.id(), h.indexed_column_ids().to_vec()))
+                        .collect()
+                } else {
+                    vec![]
+                },
+                schema: rel.schema().clone(),
+            });
+        }
+        Ok(out)
+    }
+    /// Page of the tree that holds the relation.
+    pub fn page(&self, rel: &RelationView, id: u64) -> R<BtreePageDump> {
+        dump_btree(self.0.pager(), &self.builder(), rel.root, id, &rel.schema)
+    }
+    /// Page of the catalog tree (0: id -> relation, 1: name -> id).
+    pub fn meta_page(&self, which: usize, id: u64) -> R<BtreePageDump> {
+        let (a, b) = self.meta_roots();
+        let (root, schema) = if which == 0 {
+            (a, meta_table_schema())
+        } else {
+            (b, meta_index_schema())
+        };
+        dump_btree(self.0.pager(), &self.builder(), root, id, &schema)
+    }
+    pub fn overflow(&self, id: u64) -> R<OverflowPageDump> {
+        dump_overflow(self.0.pager(), id)
+    }
+    pub fn active_transactions(&self) -> usize {
+        self.0
+            .coordinator()
+            .transaction_set(crate::multithreading::coordinator::TransactionState::Active)
+            .len()
+    }
+}
+
+/// Transaction ids are plain integers.
+pub type TxId = TransactionId;
-- 
2.43.0


From 88e75fcd120a453c0241ca9d8e89f1794fb5ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 02/30] fix: write-ahead log keeps every forced record in place
 and in order

Forces rewrote the file from block one and dropped the current block, so a
later force overwrote earlier records; sequence numbers repeated once block
zero was full; a truncated log could not be opened; records of the largest
advertised size were refused after being counted.
---
 crates/axmos-db/src/io/wal.rs      | 96 ++++++++++++++++++------------
 crates/axmos-db/src/storage/wal.rs |  5 +-
 2 files changed, 62 insertions(+), 39 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index ecb5422..99dc80e 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -48,6 +48,17 @@ impl FileOperations for WriteAheadLog {
         let fs_block_size = FileSystem::block_size(&path)?;
         let default_block_size = WAL_BLOCK_SIZE.next_multiple_of(fs_block_size);
 
+        // A log that was truncated and never forced again has no header on disk: it is empty.
+        if file.metadata()?.len() < default_block_size as u64 {
+            return Ok(Self {
+                header: BlockZero::alloc(0, default_block_size),
+                current_block: None,
+                flush_queue: VecDeque::new(),
+                file,
+                block_size: default_block_size,
+            });
+        }
+
         // Read block 0 (global header)
         let mut header_buf: BlockZero = BlockZero::new(default_block_size);
         file.seek(SeekFrom::Start(0))?;
@@ -61,9 +72,23 @@ impl FileOperations for WriteAheadLog {
             block_size
         };
 
+        // Appending continues in the last block of the log, so that records stay in order.
+        let total_blocks = header_buf.metadata().wal_header.total_blocks;
+        let current_block = if total_blocks > 1 {
+            let mut block = WalBlock::new(block_size);
+            file.seek(SeekFrom::Start((total_blocks - 1) * block_size as u64))?;
+            file.read_exact(block.as_mut())?;
+            // The header is written after the blocks, it may miss the last records.
+            let header = &mut header_buf.metadata_mut().wal_header;
+            header.global_last_lsn = header.global_last_lsn.max(block.last_lsn());
+            Some(block)
+        } else {
+            None // If needed, will be allocated on push.
+        };
+
         Ok(Self {
             header: header_buf,
-            current_block: None, // If needed, will be allocated on push.
+            current_block,
             flush_queue: VecDeque::new(),
             file,
             block_size,
@@ -147,7 +172,8 @@ impl WriteAheadLog {
     }
 
     pub(crate) fn last_lsn(&self) -> Option<Lsn> {
-        self.header.last_lsn()
+        // The header's own block only knows about the records stored in block zero.
+        self.header.metadata().wal_header.global_last_lsn
     }
 
     /// Runs the analysis phase of the ARIES recovery protocol.
@@ -308,7 +334,7 @@ impl WriteAheadLog {
                 return Ok(());
             }
             // Block zero is full, create first current_block
-            self.current_block = Some(WalBlock::new(self.block_size));
+            self.rotate_block()?;
         }
 
         // Write to current_block
@@ -323,11 +349,12 @@ impl WriteAheadLog {
         Ok(())
     }
 
-    fn get_next_block(&mut self) -> BlockId {
-        let total_blocks = &mut self.header.metadata_mut().wal_header.total_blocks;
-        let current = *total_blocks;
-        *total_blocks += 1;
-        current
+    /// Blocks are numbered consecutively, block zero being the header.
+    fn get_next_block(&self) -> BlockId {
+        match &self.current_block {
+            Some(block) => block.metadata().block_number + 1,
+            None => 1,
+        }
     }
 
     fn get_next_lsn(&mut self) -> Lsn {
@@ -346,46 +373,39 @@ impl WriteAheadLog {
     }
 
     fn rotate_block(&mut self) -> io::Result<()> {
+        let next_id = self.get_next_block();
         if let Some(full_block) = self.current_block.take() {
             self.flush_queue.push_back(full_block);
         }
-        let next_id = self.get_next_block();
         self.current_block = Some(WalBlock::alloc(next_id, self.block_size));
         Ok(())
     }
 
     pub fn perform_flush(&mut self) -> io::Result<()> {
-        // Block 0 always exists, additional blocks start at index 1
-        let mut block_number: u64 = 1;
-        let mut write_offset = self.block_size as u64;
-
-        // Flush queued blocks
-        while let Some(block) = self.flush_queue.pop_front() {
-            self.file.seek(SeekFrom::Start(write_offset))?;
+        // Every block has a fixed place in the file. The current block is kept, later records are
+        // appended to it and it is written again at the same place.
+        while let Some(block) = self.flush_queue.front() {
+            let offset = block.metadata().block_number * self.block_size as u64;
+            self.file.seek(SeekFrom::Start(offset))?;
             self.file.write_all(block.as_ref())?;
-            block_number += 1;
-            write_offset += self.block_size as u64;
+            self.flush_queue.pop_front();
         }
 
-        // Flush current block if it has data
+        // Block 0 always exists, additional blocks start at index 1
+        let mut total_blocks: u64 = 1;
+        let mut last_block_used = self.header.metadata().block_header.used_bytes;
+
         if let Some(ref block) = self.current_block {
-            if block.metadata().used_bytes > 0 {
-                self.file.seek(SeekFrom::Start(write_offset))?;
-                self.file.write_all(block.as_ref())?;
-                block_number += 1;
-            }
+            let offset = block.metadata().block_number * self.block_size as u64;
+            self.file.seek(SeekFrom::Start(offset))?;
+            self.file.write_all(block.as_ref())?;
+            total_blocks = block.metadata().block_number + 1;
+            last_block_used = block.metadata().used_bytes;
         }
 
         // Update header metadata
-        self.header.metadata_mut().wal_header.total_blocks = block_number;
-
-        if let Some(block) = self.current_block.take() {
-            self.header.metadata_mut().wal_header.last_block_used =
-                block.metadata().used_bytes as u32;
-        } else {
-            self.header.metadata_mut().wal_header.last_block_used =
-                self.header.metadata().block_header.used_bytes as u32;
-        }
+        self.header.metadata_mut().wal_header.total_blocks = total_blocks;
+        self.header.metadata_mut().wal_header.last_block_used = last_block_used as u32;
 
         // Write block zero (siempre al principio)
         self.file.seek(SeekFrom::Start(0))?;
@@ -451,10 +471,12 @@ impl<'a> WalReader<'a> {
         block_size: usize,
         total_blocks: u64,
     ) -> io::Result<Self> {
-        // Read block zero (header)
-        let mut header = BlockZero::new(block_size);
-        file.seek(SeekFrom::Start(0))?;
-        file.read_exact(header.as_mut())?;
+        // Read block zero (header). It is not there until the log is forced for the first time.
+        let mut header = BlockZero::alloc(0, block_size);
+        if file.metadata()?.len() >= block_size as u64 {
+            file.seek(SeekFrom::Start(0))?;
+            file.read_exact(header.as_mut())?;
+        }
 
         let read_ahead_size = read_ahead_size.next_multiple_of(block_size);
         let num_blocks_to_read =
diff --git a/crates/axmos-db/src/storage/wal.rs b/crates/axmos-db/src/storage/wal.rs
index 24f9bfe..13b7899 100644
--- a/crates/axmos-db/src/storage/wal.rs
+++ b/crates/axmos-db/src/storage/wal.rs
@@ -408,14 +408,15 @@ pub(crate) type WalBlock = MemBlock<BlockHeader>;
 
 impl AvailableSpace for BlockZero {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity())
+        self.capacity()
             .saturating_sub(self.metadata().block_header.used_bytes as usize)
     }
 }
 
 impl AvailableSpace for WalBlock {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity()).saturating_sub(self.metadata().used_bytes as usize)
+        self.capacity()
+            .saturating_sub(self.metadata().used_bytes as usize)
     }
 }
 
-- 
2.43.0


From ebcacca7ea67e04dfd26db2621534ebad044f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 03/30] fix: defragment moves overlapping cells with a memmove

---
 crates/axmos-db/src/storage/core/buffer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 9bdff50..90bce31 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -894,7 +894,9 @@ where
                 let cell_ref = CellRef::from_raw(cell);
                 let size = cell_ref.total_size();
                 destination_offset -= size as usize;
-                self.write_item_to_offset(destination_offset as u64, cell_ref);
+                // The cell may move by less than its own size, so both ranges can overlap.
+                let destination = self.item_at_offset(destination_offset as u64);
+                std::ptr::copy(cell.cast::<u8>().as_ptr(), destination.cast().as_ptr(), size);
             }
             self.slot_array_mut()[i] = destination_offset as u16;
         }
-- 
2.43.0


From 6b995717a0230642992e003dc1a083788597e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 04/30] fix: a panicking task no longer takes its pool worker
 down

---
 crates/axmos-db/src/multithreading/threadpool.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 5b21b80..fe07d0a 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -2,6 +2,7 @@ use std::{
     collections::VecDeque,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
+    panic::{self, AssertUnwindSafe},
     sync::{
         Arc,
         atomic::{AtomicBool, Ordering},
@@ -126,7 +127,9 @@ impl Worker {
             {
                 match job {
                     Job::Task(task) => {
-                        let _ = task();
+                        // A panicking task must not take its worker down: whoever waits for
+                        // the task is told by its channel being closed.
+                        let _ = panic::catch_unwind(AssertUnwindSafe(task));
                     }
                     Job::Shutdown => break,
                 }
-- 
2.43.0


From 2bb69bce09c390d4d0995753a3903495a6c3e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 05/30] fix: wire protocol bounds counts, rejects trailing
 bytes and invalid UTF-8, answers bad frames with an error

---
 crates/axmos-db/src/bin/axmos_server.rs | 20 ++++++-
 crates/axmos-db/src/tcp/mod.rs          | 72 ++++++++++++++++---------
 2 files changed, 66 insertions(+), 26 deletions(-)

diff --git a/crates/axmos-db/src/bin/axmos_server.rs b/crates/axmos-db/src/bin/axmos_server.rs
index db28659..d06f65e 100644
--- a/crates/axmos-db/src/bin/axmos_server.rs
+++ b/crates/axmos-db/src/bin/axmos_server.rs
@@ -303,10 +303,20 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             Ok(req) => req,
             Err(TcpError::ConnectionClosed) => break,
             Err(TcpError::Io(ref e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
-            Err(e) => {
+            Err(TcpError::Io(e)) => {
                 eprintln!("Request error: {}", e);
                 break;
             }
+            Err(e) => {
+                eprintln!("Request error: {}", e);
+                send_response(&mut writer, &Response::Error(e.to_string()))?;
+                // The whole frame was read unless it was too large: then the rest of the
+                // stream can not be told apart.
+                if matches!(e, TcpError::MessageTooLarge(_)) {
+                    break;
+                }
+                continue;
+            }
         };
 
         let response = process_request(request, state, &mut ctx);
@@ -316,7 +326,13 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             break;
         }
 
-        send_response(&mut writer, &response)?;
+        match send_response(&mut writer, &response) {
+            // Nothing was sent yet: the client gets an error instead.
+            Err(e @ TcpError::MessageTooLarge(_)) => {
+                send_response(&mut writer, &Response::Error(e.to_string()))?
+            }
+            sent => sent?,
+        }
     }
 
     if let Some(mut session) = ctx.session.take() {
diff --git a/crates/axmos-db/src/tcp/mod.rs b/crates/axmos-db/src/tcp/mod.rs
index c092253..f0b821c 100644
--- a/crates/axmos-db/src/tcp/mod.rs
+++ b/crates/axmos-db/src/tcp/mod.rs
@@ -9,6 +9,8 @@ pub mod session;
 
 pub const PROTOCOL_VERSION: u8 = 1;
 pub const MAX_MESSAGE_SIZE: usize = 16 * 1024 * 1024;
+/// Rows without columns take no space in a message, so their number has its own limit.
+pub const MAX_EMPTY_ROWS: usize = 64 * 1024;
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum Request {
@@ -125,9 +127,7 @@ impl Request {
                 Ok(Self::Explain(sql))
             }
             0x05 => {
-                if payload.len() < 16 {
-                    return Err(TcpError::InvalidMessage("Analyze payload too short".into()));
-                }
+                expect_len(payload, 16)?;
                 let sample_rate = f64::from_le_bytes(payload[0..8].try_into().unwrap());
                 let max_sample_rows =
                     u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
@@ -136,13 +136,13 @@ impl Request {
                     max_sample_rows,
                 })
             }
-            0x06 => Ok(Self::Close),
-            0x07 => Ok(Self::Ping),
-            0x09 => Ok(Self::Vacuum),
-            0x0A => Ok(Self::Begin),
-            0x0B => Ok(Self::Commit),
-            0x0C => Ok(Self::Rollback),
-            0xFF => Ok(Self::Shutdown),
+            0x06 => expect_len(payload, 0).map(|_| Self::Close),
+            0x07 => expect_len(payload, 0).map(|_| Self::Ping),
+            0x09 => expect_len(payload, 0).map(|_| Self::Vacuum),
+            0x0A => expect_len(payload, 0).map(|_| Self::Begin),
+            0x0B => expect_len(payload, 0).map(|_| Self::Commit),
+            0x0C => expect_len(payload, 0).map(|_| Self::Rollback),
+            0xFF => expect_len(payload, 0).map(|_| Self::Shutdown),
             _ => Err(TcpError::UnknownCommand(cmd)),
         }
     }
@@ -313,6 +313,11 @@ impl Response {
                 let col_count = u32::from_le_bytes(payload[0..4].try_into().unwrap()) as usize;
                 offset += 4;
 
+                // Every string takes at least its four length bytes: check the counts against
+                // what was received before allocating anything for them.
+                if col_count > (payload.len() - offset) / 4 {
+                    return Err(TcpError::InvalidMessage("Invalid column count".into()));
+                }
                 let mut columns = Vec::with_capacity(col_count);
 
                 for _ in 0..col_count {
@@ -328,6 +333,13 @@ impl Response {
                     u32::from_le_bytes(payload[offset..offset + 4].try_into().unwrap()) as usize;
                 offset += 4;
 
+                let max_rows = match col_count {
+                    0 => MAX_EMPTY_ROWS,
+                    n => (payload.len() - offset) / 4 / n,
+                };
+                if row_count > max_rows {
+                    return Err(TcpError::InvalidMessage("Invalid row count".into()));
+                }
                 let mut data = Vec::with_capacity(row_count);
                 for _ in 0..row_count {
                     let mut row = Vec::with_capacity(col_count);
@@ -338,13 +350,12 @@ impl Response {
                     }
                     data.push(row);
                 }
+                expect_len(&payload[offset..], 0)?;
 
                 Ok(Self::Rows { columns, data })
             }
             StatusCode::RowsAffected => {
-                if payload.len() < 8 {
-                    return Err(TcpError::InvalidMessage("Missing count".into()));
-                }
+                expect_len(payload, 8)?;
                 let count = u64::from_le_bytes(payload[0..8].try_into().unwrap());
                 Ok(Self::RowsAffected(count))
             }
@@ -357,9 +368,7 @@ impl Response {
                 Ok(Self::Explain(plan))
             }
             StatusCode::VacuumComplete => {
-                if payload.len() < 24 {
-                    return Err(TcpError::InvalidMessage("Vacuum payload too short".into()));
-                }
+                expect_len(payload, 24)?;
                 let tables_vacuumed =
                     u64::from_le_bytes(payload[0..8].try_into().unwrap()) as usize;
                 let bytes_freed = u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
@@ -371,11 +380,11 @@ impl Response {
                     transactions_cleaned,
                 })
             }
-            StatusCode::Pong => Ok(Self::Pong),
-            StatusCode::Goodbye => Ok(Self::Goodbye),
-            StatusCode::ShuttingDown => Ok(Self::ShuttingDown),
-            StatusCode::Begin => Ok(Self::SessionStarted),
-            StatusCode::End => Ok(Self::SessionEnd),
+            StatusCode::Pong => expect_len(payload, 0).map(|_| Self::Pong),
+            StatusCode::Goodbye => expect_len(payload, 0).map(|_| Self::Goodbye),
+            StatusCode::ShuttingDown => expect_len(payload, 0).map(|_| Self::ShuttingDown),
+            StatusCode::Begin => expect_len(payload, 0).map(|_| Self::SessionStarted),
+            StatusCode::End => expect_len(payload, 0).map(|_| Self::SessionEnd),
         }
     }
 
@@ -436,10 +445,23 @@ fn write_string(buf: &mut Vec<u8>, s: &str) {
 }
 
 fn read_string(data: &[u8]) -> Result<String, TcpError> {
-    let (s, _) = read_string_with_len(data)?;
+    let (s, len) = read_string_with_len(data)?;
+    expect_len(&data[len..], 0)?;
     Ok(s)
 }
 
+/// Checks that what is left of a message has exactly the size it should have.
+fn expect_len(data: &[u8], len: usize) -> Result<(), TcpError> {
+    if data.len() != len {
+        return Err(TcpError::InvalidMessage(format!(
+            "Expected {} more bytes, got {}",
+            len,
+            data.len()
+        )));
+    }
+    Ok(())
+}
+
 fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
     if data.len() < 4 {
         return Err(TcpError::InvalidMessage("String length missing".into()));
@@ -447,7 +469,7 @@ fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
 
     let len = u32::from_le_bytes(data[0..4].try_into().unwrap()) as usize;
 
-    if data.len() < 4 + len {
+    if data.len() - 4 < len {
         return Err(TcpError::InvalidMessage(format!(
             "String data truncated: expected {} bytes, got {}",
             len,
@@ -455,7 +477,9 @@ fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
         )));
     }
 
-    let s = String::from_utf8_lossy(&data[4..4 + len]).into_owned();
+    let s = std::str::from_utf8(&data[4..4 + len])
+        .map_err(|e| TcpError::InvalidMessage(format!("String is not valid UTF-8: {}", e)))?
+        .to_owned();
     Ok((s, 4 + len))
 }
 
-- 
2.43.0


From 08ee89282ff5b17ef2e5b68ddd3f3b50a277dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 06/30] fix: replacing or draining cells keeps the page's free
 space accounting

---
 crates/axmos-db/src/storage/core/buffer.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 90bce31..b7d1fbb 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -803,7 +803,7 @@ where
 
         // There's no way we can fit the new cell in this page, even if we
         // remove the one that has to be replaced.
-        if self.free_space() as usize + old_cell.total_size() < new_cell.total_size() {
+        if self.free_space() as usize + old_cell.storage_size() < new_cell.storage_size() {
             return Err(IoError::new(
                 ErrorKind::StorageFull,
                 "Buffer overflow. Attempted to insert with overflow on a btreepage.",
@@ -826,7 +826,7 @@ where
                 .copy_from_slice(&new_cell.full_data());
             *old_cell.metadata_mut() = *new_cell.metadata();
 
-            self.free_space_pointer_down(free_bytes);
+            // The gained bytes lie after the cell, not at the free space pointer. They come back through defragmentation.
             self.add_free_space(free_bytes);
 
             return Ok(owned_cell);
@@ -845,7 +845,7 @@ where
     fn remove(&mut self, index: usize) -> io::Result<OwnedCell> {
         let len = self.num_slots();
 
-        if index > self.num_slots() {
+        if index >= self.num_slots() {
             return Err(IoError::new(
                 ErrorKind::InvalidInput,
                 format!(
@@ -937,16 +937,15 @@ where
                         .sum::<usize>() as u32,
                 );
 
-                self.free_space_pointer_down(
-                    (start..slot_index)
-                        .map(|slot| self.cell(slot).total_size())
-                        .sum::<usize>() as u32,
-                );
-
                 self.slot_array_mut().copy_within(slot_index.., start);
 
                 self.remove_slots(slot_index - start);
 
+                // The drained cells can be anywhere in the page, so unless there is nothing left the space comes back through defragmentation.
+                if self.num_slots() == 0 {
+                    self.reset_free_space_pointer(self.capacity() as u32);
+                }
+
                 None
             }
         })
-- 
2.43.0


From e3a10a003d320187b6f2aee1fb15919c2620a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 07/30] fix: overflow cells store the tuple without its padding

---
 crates/axmos-db/src/tree/cell_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/tree/cell_ops.rs b/crates/axmos-db/src/tree/cell_ops.rs
index 5c0e73f..59798bf 100644
--- a/crates/axmos-db/src/tree/cell_ops.rs
+++ b/crates/axmos-db/src/tree/cell_ops.rs
@@ -288,8 +288,8 @@ impl CellBuilder {
             return Ok(data.into());
         }
 
-        // At this point we have to split the payload.
-        let payload = data.full_data();
+        // At this point we have to split the payload. The padding is not part of it.
+        let payload = data.effective_data();
 
         let mut overflow_page_number = self.pager.write().allocate_page::<OverflowPage>()?;
 
-- 
2.43.0


From aa5a59ad8f1ddac17b7598bfce3856a461bf225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 08/30] fix: B+tree rebalancing keeps order, links and
 separators

Separators carry the key columns only and own their overflow chain instead of
aliasing the one of a leaf cell, redistribution works on cells in memory so it
can not run out of page space half way, and the levels above are rebalanced
whenever their cells changed.
---
 crates/axmos-db/src/tree/bplustree.rs | 795 +++++++++++---------------
 1 file changed, 335 insertions(+), 460 deletions(-)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 3b8ea81..10f716d 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -4,14 +4,14 @@ use crate::{
     schema::base::Schema,
     storage::{
         BtreeMetadata, BtreeOps, Identifiable,
-        cell::OwnedCell,
+        cell::{CELL_HEADER_SIZE, OwnedCell, Slot},
         page::{BtreePage, OverflowPage},
-        tuple::{Row, Tuple, TupleError, TupleReader, TupleRef},
+        tuple::{Row, Tuple, TupleBuilder, TupleError, TupleReader, TupleRef},
     },
     tree::accessor::{
         Accessor, BtreePagePosition, BtreeReadAccessor, BtreeWriteAccessor, TreeReader, TreeWriter,
     },
-    types::{PAGE_ZERO, PageId},
+    types::{DataType, PAGE_ZERO, PageId},
 };
 
 use super::{
@@ -20,12 +20,13 @@ use super::{
 };
 
 use std::{
-    cmp::{Ordering, Reverse},
-    collections::{BTreeMap, BinaryHeap, HashSet, VecDeque},
+    cmp::Ordering,
+    collections::{BTreeMap, HashSet, VecDeque},
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult, Write},
     fs,
     io::{self, Error as IoError, ErrorKind},
+    mem,
     path::Path,
     usize,
 };
@@ -456,9 +457,8 @@ where
         let mut current = self.get_root();
 
         loop {
-            let left_child = self.get_page(current)?.cell(0).left_child();
-
-            let is_leaf = self.get_page(current)?.is_leaf();
+            let page = self.get_page(current)?;
+            let left_child = if page.is_leaf() { None } else { page.child(0) };
             self.accessor_mut()?.release(current);
 
             // If left child is not set it means we have reached up a leaf node.
@@ -639,7 +639,7 @@ where
             self.cloned_shared(),
             right_most_position.entry(),
             right_most_position.slot() as isize,
-            IterDirection::Forward,
+            IterDirection::Backward,
         )
     }
 
@@ -772,7 +772,7 @@ where
         };
 
         // Check the current page status and call balance if required.
-        self.balance(page_id)?;
+        self.balance(page_id, schema)?;
         Ok(())
     }
 
@@ -801,7 +801,7 @@ where
         // Deallocate the cell
         deallocator.deallocate_cell(old_cell)?;
 
-        self.balance(page_id)?;
+        self.balance(page_id, schema)?;
 
         Ok(())
     }
@@ -888,7 +888,7 @@ where
                 let deallocator = CellDeallocator::new(self.pager.clone());
                 deallocator.deallocate_cell(cell)?;
 
-                self.balance(page_id)?;
+                self.balance(page_id, schema)?;
 
                 Ok(())
             }
@@ -921,7 +921,7 @@ where
                 let deallocator = CellDeallocator::new(self.pager.clone());
                 deallocator.deallocate_cell(cell)?;
 
-                self.balance(page_id)?;
+                self.balance(page_id, schema)?;
 
                 Ok(())
             }
@@ -943,7 +943,7 @@ where
     /// 2. Pushes them to the root node.
     /// 3. The right child gets deallocated.
     /// 4. The right grandchild becomes the new right-child.
-    fn balance_shallower(&mut self) -> BtreeResult<()> {
+    fn balance_shallower(&mut self, schema: &Schema) -> BtreeResult<()> {
         let is_empty = self.get_page_mut(self.root)?.is_empty();
         let is_leaf = self.get_page_mut(self.root)?.is_leaf();
 
@@ -961,10 +961,7 @@ where
         let cells = child_page.drain(..).collect::<Vec<OwnedCell>>();
 
         // Release the child's latch and deallocate.
-        self.accessor_mut()?.release(right_child_id);
-        self.pager
-            .write()
-            .dealloc_page::<BtreePage>(right_child_id)?;
+        self.dealloc_node(right_child_id)?;
 
         let root_page = self.get_page_mut(self.root)?;
         // Refill the old root (we have checked at the beginning that it was empty)
@@ -975,197 +972,240 @@ where
         // Re-set the root to point to the old grand child , a we have removed the node in the middle.
         root_page.set_right_child(optional_grand_child_id);
 
+        // The node we have pulled up might have had a single child as well.
+        self.balance(self.root, schema)
+    }
+
+    /// Releases the latch on a node and gives its page back to the pager.
+    fn dealloc_node(&mut self, page_id: PageId) -> BtreeResult<()> {
+        self.accessor_mut()?.release(page_id);
+        self.pager.write().dealloc_page::<BtreePage>(page_id)?;
         Ok(())
     }
 
-    /// Splits a mutable slice of cells into two parts, assuming they are sorted by key.
-    /// Useful for cell redistribution.
-    fn split_cells(mut cells: Vec<OwnedCell>) -> (Vec<OwnedCell>, Vec<OwnedCell>) {
-        // Assumes cells are sorted
-        let sizes: Vec<usize> = cells.iter().map(|cell| cell.total_size()).collect();
-        let total_size: usize = sizes.iter().sum();
-        let half_size = total_size.div_ceil(2);
+    /// Builds the cell that separates [`right`], the first cell of a leaf node, from the node at its left.
+    ///
+    /// Separators only carry the key columns. They own everything they point to, so that they remain valid when the cell they were built from is updated or removed.
+    fn build_separator(
+        &self,
+        right: &OwnedCell,
+        left_child: PageId,
+        schema: &Schema,
+    ) -> BtreeResult<OwnedCell> {
+        let mut reassembler = Reassembler::new(self.get_pager().clone());
+        reassembler.reassemble(right.as_cell_ref())?;
+        let bytes = reassembler.into_boxed_slice();
 
-        // Look for the point where the accumulated result crosses the mid point.
-        let mut acc = 0;
-        let split_index = sizes
-            .iter()
-            .position(|&s| {
-                acc += s;
-                acc >= half_size
-            })
-            .unwrap_or(cells.len().div_ceil(2));
+        let layout = TupleReader::from_schema(schema).parse_last_version(&bytes)?;
+        let tuple = TupleRef::new(&bytes, layout);
+        let xmin = tuple.global_xmin();
 
-        // Divide the vector
-        let right = cells.split_off(split_index);
-        let left = cells;
+        let mut values = tuple.to_row_with(schema)?.into_inner();
+        for value in values.iter_mut().skip(schema.num_keys()) {
+            *value = DataType::Null;
+        }
+        let separator = TupleBuilder::from_schema(schema).build(&Row::new(values), xmin)?;
 
-        (left, right)
+        let page_size = self.pager.write().page_size();
+        let builder = CellBuilder::new(page_size, self.min_keys, self.pager.clone());
+        let mut cell = builder.build_cell(separator, schema)?;
+        cell.set_left_child(Some(left_child));
+        Ok(cell)
     }
 
     /// Balance deeper algorithm inspired by SQLite [balance deeper].
-    /// Balance deeper is the opposite of balance shallower in the sense that it will allocate two new nodes when the root becomes full, increasing the depth of the tree by one.
-    /// The cell in the middle gets propagated upwards.
-    /// We also need to fix the pointers in the frontiers between the two new nodes to maintain the leaf node's linked list.
-    fn balance_deeper(&mut self) -> BtreeResult<()> {
-        let page_size = self.pager.write().page_size();
-        // Allocate new left and right childs
-        let new_left = self.pager.write().allocate_page::<BtreePage>()?;
-        let new_right = self.pager.write().allocate_page::<BtreePage>()?;
-
-        // Obtain root page metadata
-
-        let optional_old_right_id = self.get_page_mut(self.root)?.right_child();
-        let was_leaf = self.get_page_mut(self.root)?.is_leaf();
-
-        // drain the root node.
-        let cells = self
-            .get_page_mut(self.root)?
-            .drain(..)
-            .collect::<Vec<OwnedCell>>();
-
-        // Split the cell's array.
-        let (mut left_cells, right_cells) = Self::split_cells(cells);
-
-        // Choose the appropiate cell to propagate based on the type of page.
-        // We need to copy  because we also need to insert it on the new leaves (this is a Bplustree, so the data must reside on the leaf pages.)
-        let mut propagated_cell = if was_leaf {
-            right_cells.first().unwrap().clone()
-        } else {
-            left_cells.last().unwrap().clone()
+    /// Balance deeper is the opposite of balance shallower in the sense that it will allocate new nodes when the root becomes full, increasing the depth of the tree by one.
+    /// [`cells`] are the cells of the (already drained) root.
+    fn balance_deeper(&mut self, cells: VecDeque<OwnedCell>, schema: &Schema) -> BtreeResult<()> {
+        let (capacity, old_right_child) = {
+            let root_page = self.get_page_mut(self.root)?;
+            (root_page.capacity(), root_page.right_child())
         };
-        propagated_cell.set_left_child(Some(new_left));
+        let is_leaf = old_right_child.is_none();
 
-        {
-            let current_root_page = self.get_page_mut(self.root)?;
-            // Now we move part of the cells to one node and the other part to the other node.
-            current_root_page.set_right_child(Some(new_right));
-            current_root_page.push(propagated_cell)?;
+        let distribution = Self::compute_best_cell_distribution(&cells, capacity, is_leaf);
+        let mut nodes = Vec::with_capacity(distribution.len());
+        for _ in 0..distribution.len() {
+            nodes.push(self.pager.write().allocate_page::<BtreePage>()?);
         }
 
-        // In case we were splitting an interior node we need to account that the last cell must be used as the right child of the new allocated pages.
+        let separators = self.fill_nodes(
+            &nodes,
+            &distribution,
+            cells,
+            old_right_child,
+            None,
+            None,
+            schema,
+        )?;
 
-        let (cells_for_left, right_child) = if was_leaf {
-            (left_cells, None)
-        } else if let Some(last) = left_cells.pop() {
-            (left_cells, last.left_child())
-        } else {
-            (left_cells, None)
-        };
+        // The root takes the separators. Its depth grows by one.
+        self.store_interior(self.root, separators, nodes.last().copied(), schema)
+    }
 
-        {
-            let left_page = self.get_page_mut(new_left)?;
+    // Computes the best cell distribution given a list of cells.
+    //
+    // The cell distribution computation is part of the rebalance algorithm.
+    //
+    // It is done once before the actual redistribution in order to know in advance where do we have to put cells on.
+    // This way cells are moved only once in memory.
+    //
+    // Returns the number of cells in each node. On interior nodes, there is one additional cell between each pair of nodes, which is the one that gets propagated to the parent.
+    fn compute_best_cell_distribution(
+        cells: &VecDeque<OwnedCell>,
+        capacity: usize,
+        is_leaf: bool,
+    ) -> Vec<usize> {
+        let sizes: Vec<usize> = cells.iter().map(|cell| cell.storage_size()).collect();
+        // A node which is filled up to here is not in overflow state (see [BtreeOps::has_overflown])
+        let usable_space = BtreePage::overflow_threshold(capacity).saturating_sub(
+            mem::size_of::<Slot>() + CELL_HEADER_SIZE + mem::size_of::<PageId>(),
+        );
+        let skip = if is_leaf { 0 } else { 1 };
 
-            // Push the owned cells to the left page.
-            for cell in cells_for_left {
-                left_page.push(cell)?;
+        // Each node takes the cells in start..end. The next one starts at end + skip.
+        let mut ranges: Vec<(usize, usize)> = Vec::new();
+        let mut start = 0;
+        loop {
+            let mut end = start;
+            let mut used = 0;
+            while end < sizes.len() && (end == start || used + sizes[end] <= usable_space) {
+                used += sizes[end];
+                end += 1;
             }
 
-            left_page.set_right_child(right_child);
-            left_page.set_next_sibling(Some(new_right));
-            left_page.set_prev_sibling(None);
-        }
-
-        {
-            let right_page = self.get_page_mut(new_right)?;
-            // Now do the same with the other page.
-            for cell in right_cells {
-                right_page.push(cell)?;
+            if end >= sizes.len() {
+                ranges.push((start, sizes.len()));
+                break;
             }
 
-            right_page.set_prev_sibling(Some(new_left));
-            right_page.set_next_sibling(None);
-            right_page.set_right_child(optional_old_right_id);
+            // There must be something left for the next node.
+            if end + skip >= sizes.len() {
+                end -= 1;
+            }
+            ranges.push((start, end));
+            start = end + skip;
         }
 
-        // Fix the frontier links.
-        // The right child of the left page must be linked with the left most child of the right page to maintain proper ordering.
-        let left_right_most = self.get_page_mut(new_left)?.right_child();
-        let right_left_most = self.get_page_mut(new_right)?.cell(0).left_child();
+        // Account for underflow towards the right. Cells rotate to the node at the right as long as this one is the smaller of both.
+        let used = |range: (usize, usize)| sizes[range.0..range.1].iter().sum::<usize>();
+        for i in (1..ranges.len()).rev() {
+            loop {
+                let (left, right) = (ranges[i - 1], ranges[i]);
+                let moved_left = (left.0, left.1 - 1);
+                let moved_right = (right.0 - 1, right.1);
+                if moved_left.0 >= moved_left.1
+                    || used(moved_left) < used(moved_right)
+                    || used(moved_right) > usable_space
+                {
+                    break;
+                }
+                ranges[i - 1] = moved_left;
+                ranges[i] = moved_right;
+            }
+        }
 
-        if let Some(page_id) = left_right_most {
-            let page = self.get_page_mut(page_id)?;
-            page.set_next_sibling(right_left_most);
-        };
+        ranges.iter().map(|(start, end)| end - start).collect()
+    }
 
-        if let Some(page_id) = right_left_most {
-            let page = self.get_page_mut(page_id)?;
-            page.set_prev_sibling(left_right_most);
-        };
+    /// Fills a chain of (empty) nodes with the cells that correspond to each of them and links it with the nodes that go before and after.
+    ///
+    /// Returns the cells that separate each pair of nodes.
+    fn fill_nodes(
+        &mut self,
+        nodes: &[PageId],
+        distribution: &[usize],
+        mut cells: VecDeque<OwnedCell>,
+        last_right_child: Option<PageId>,
+        prev: Option<PageId>,
+        next: Option<PageId>,
+        schema: &Schema,
+    ) -> BtreeResult<Vec<OwnedCell>> {
+        let is_leaf = last_right_child.is_none();
+        let mut separators = Vec::with_capacity(nodes.len().saturating_sub(1));
+
+        for (i, (node_id, num_cells)) in nodes.iter().zip(distribution).enumerate() {
+            let node_cells: Vec<OwnedCell> = cells.drain(..*num_cells).collect();
+            let is_last = i + 1 == nodes.len();
+
+            let mut right_child = last_right_child;
+            if !is_last {
+                // For leaf nodes the separator is built from the first cell of the next node.
+                // For interior nodes, we propagate the cell between both nodes and use its child as our right most.
+                let separator = if is_leaf {
+                    self.build_separator(cells.front().unwrap(), *node_id, schema)?
+                } else {
+                    let mut separator = cells.pop_front().unwrap();
+                    right_child = separator.left_child();
+                    separator.set_left_child(Some(*node_id));
+                    separator
+                };
+                separators.push(separator);
+            }
 
-        Ok(())
-    }
+            let page = self.get_page_mut(*node_id)?;
+            for cell in node_cells {
+                page.push(cell)?;
+            }
+            page.set_right_child(right_child);
+            page.set_prev_sibling(if i > 0 { Some(nodes[i - 1]) } else { prev });
+            page.set_next_sibling(if is_last { next } else { Some(nodes[i + 1]) });
+        }
 
-    // Computes the best cell distribution given a list of cells.
-    //
-    // The cell distribution computation is part of the rebalance algorithm.
-    //
-    // It is done once before the actual redistribution in order to know in advance where do we have to put cells on.
-    // This way cells are moved only once in memory
-    fn compute_best_cell_distribution(
-        cells: &VecDeque<OwnedCell>,
-        page_size: usize,
-    ) -> (Vec<usize>, Vec<usize>) {
-        // Obtain the maximum data that we can fit on this page.
-        let usable_space = BtreePage::overflow_threshold(page_size);
+        // Fix the frontier links.
+        if let Some(prev) = prev {
+            self.get_page_mut(prev)?
+                .set_next_sibling(nodes.first().copied());
+        }
+        if let Some(next) = next {
+            self.get_page_mut(next)?
+                .set_prev_sibling(nodes.last().copied());
+        }
 
-        // These two arrays track the redistribution computation of the rebalancing algorithm.
-        let mut total_size_in_each_page = vec![0];
-        let mut number_of_cells_per_page = vec![0];
+        Ok(separators)
+    }
 
-        // We keep pushing cells to the bucket until we exhaust it.
-        // Once done, we create a new bucket an advance the cursor.
-        for cell in cells {
-            let bucket = number_of_cells_per_page.len() - 1;
+    /// Stores the cells of an interior (already drained) node, moving upwards if they do not fit.
+    fn store_interior(
+        &mut self,
+        page_id: PageId,
+        cells: Vec<OwnedCell>,
+        right_child: Option<PageId>,
+        schema: &Schema,
+    ) -> BtreeResult<()> {
+        let required: usize = cells.iter().map(|cell| cell.storage_size()).sum();
+        let page = self.get_page_mut(page_id)?;
+        page.set_right_child(right_child);
 
-            // If we can add the cell, we push it to the current bucket.
-            if total_size_in_each_page[bucket] + cell.storage_size() <= usable_space {
-                number_of_cells_per_page[bucket] += 1;
-                total_size_in_each_page[bucket] += cell.storage_size();
-            } else {
-                // If not, we create a new bucket and append this cell to it.
-                number_of_cells_per_page.push(1);
-                total_size_in_each_page.push(cell.storage_size());
-            };
+        if required <= page.capacity() {
+            for cell in cells {
+                page.push(cell)?;
+            }
+            return self.balance(page_id, schema);
         }
 
-        // Account for underflow towards the right.
-        // At least two pages are needed in order to be able to account for that underflow.
-        if number_of_cells_per_page.len() >= 2 {
-            // The divider cell will be the first cell of the last page.
-            let mut divider_cell = cells.len() - number_of_cells_per_page.last().unwrap() - 1;
-
-            // Iterate backwards, moving cells towards the right.
-            for i in (1..=(total_size_in_each_page.len() - 1)).rev() {
-                while total_size_in_each_page[i] < BtreePage::underflow_threshold(page_size) {
-                    number_of_cells_per_page[i] += 1;
-                    total_size_in_each_page[i] += &cells[divider_cell].storage_size();
-
-                    number_of_cells_per_page[i - 1] -= 1;
-                    total_size_in_each_page[i - 1] -= &cells[divider_cell - 1].storage_size();
-                    divider_cell -= 1;
-                }
-            }
+        if self.is_root(page_id) {
+            return self.balance_deeper(cells.into(), schema);
+        }
 
-            // Second page has more data than the first one, make a little
-            // adjustment to keep it left biased.
-            if total_size_in_each_page[0] < BtreePage::underflow_threshold(page_size) {
-                number_of_cells_per_page[0] += 1;
-                number_of_cells_per_page[1] -= 1;
-            };
-        };
+        let parent_position = self.pop_parent()?;
+        self.redistribute(page_id, cells, &parent_position, schema)
+    }
 
-        (total_size_in_each_page, number_of_cells_per_page)
+    /// Pop the last visited position from the stack.
+    /// During balance, we propagate upwards, therefore we use the stack in the opposite way as we do when we traverse down, popping as we call it on each node and using the popped position to identify where we are at in the tree.
+    fn pop_parent(&mut self) -> BtreeResult<BtreePagePosition> {
+        self.accessor_mut()?
+            .pop_position()
+            .ok_or(BtreeError::TraversalEmpty)
     }
 
     /// Full balance algorithm.
     /// The description of this algorithm can be found on original SQLite docs: https://sqlite.org/btreemodule.html
     /// The main idea is that you have to take as many pages as specified, recompute a balanced distribution, and redistribute the cells accordingly.
     /// Afterwards, propagate the pointers as required.
-    fn balance(&mut self, page_id: PageId) -> BtreeResult<()> {
+    fn balance(&mut self, page_id: PageId, schema: &Schema) -> BtreeResult<()> {
         let is_root = self.is_root(page_id);
-        // Read the page size from the pager.
-        let page_size = self.pager.write().page_size();
         let status = self.check_node_status(page_id)?;
 
         // Nothing to do, the node is balanced.
@@ -1175,305 +1215,133 @@ where
 
         // Root underflow.
         if is_root && matches!(status, NodeStatus::Underflow) {
-            return self.balance_shallower();
+            return self.balance_shallower(schema);
         };
 
         // Root overflow.
         if is_root && matches!(status, NodeStatus::Overflow) {
-            return self.balance_deeper();
+            let cells = self
+                .get_page_mut(page_id)?
+                .drain(..)
+                .collect::<VecDeque<OwnedCell>>();
+            return self.balance_deeper(cells, schema);
         };
 
-        // Pop the last visited position from the stack.
-        // During balance, we propagate upwards, therefore we use the stack in the opposite way as we do when we traverse down, popping as we call it on each node and using the popped position to identify where we are at in the tree.
-        let parent_position = self
-            .accessor_mut()?
-            .pop_position()
-            .ok_or(BtreeError::TraversalEmpty)?;
+        let parent_position = self.pop_parent()?;
 
         // Internal/Leaf node Overflow/Underflow.
-        self.balance_siblings(page_id, &parent_position)?;
+        self.balance_siblings(page_id, &parent_position, schema)?;
 
-        // No need to fuck anything else up.
+        // Borrowing was enough. The separators in the parent might have changed their size.
         if matches!(self.check_node_status(page_id)?, NodeStatus::Balanced) {
-            return Ok(());
-        };
-
-        let parent_page_id = parent_position.entry();
-        let (parent_prev, last_parent_slot, parent_next) = {
-            let parent_page = self.get_page_mut(parent_page_id)?;
-
-            // Get metadata about the parent
-            let parent_prev = parent_page.prev_sibling();
-            let last_parent_slot = parent_page.num_slots();
-            let parent_next = parent_page.next_sibling();
-            (parent_prev, last_parent_slot, parent_next)
+            return self.balance(parent_position.entry(), schema);
         };
 
-        // Check if we are about to rebalance a leaf node (we will need it later).
-        let is_leaf = self.get_page_mut(page_id)?.is_leaf();
-
-        // Obtain the right most child of the parent's left sibling (right most cousin)
-        let parent_prev_sibling_last = if let Some(prev_id) = parent_prev {
-            let parent_child_page = self.get_page_mut(prev_id)?;
-            parent_child_page
-                .right_child()
-                .map(|id| BtreePagePosition::new(id, parent_child_page.num_slots()))
-        } else {
-            None
-        };
+        let cells = self
+            .get_page_mut(page_id)?
+            .drain(..)
+            .collect::<Vec<OwnedCell>>();
+        self.redistribute(page_id, cells, &parent_position, schema)
+    }
 
-        // Obtain the first child of the parent's next sibling (left most cousin)
-        let parent_next_sibling_first = if let Some(next_id) = parent_next {
-            let parent_child_page = self.get_page_mut(next_id)?;
-            parent_child_page
-                .cell(0)
-                .left_child()
-                .map(|id| BtreePagePosition::new(id, 0))
-        } else {
-            None
-        };
+    /// Redistributes the cells of a node and its closest siblings.
+    /// [`own_cells`] are the cells of the (already drained) node.
+    fn redistribute(
+        &mut self,
+        page_id: PageId,
+        own_cells: Vec<OwnedCell>,
+        parent_position: &BtreePagePosition,
+        schema: &Schema,
+    ) -> BtreeResult<()> {
+        let parent_page_id = parent_position.entry();
+        let siblings = self.load_siblings(page_id, parent_position, self.num_siblings_per_side)?;
+        let first_slot = siblings[0].slot();
+        let last_slot = first_slot + siblings.len() - 1;
 
-        // Load siblings
-        let mut siblings =
-            self.load_siblings(page_id, &parent_position, self.num_siblings_per_side)?;
-
-        // Load the frontiers in case it is necessary.
-        let last_loaded_sibling_slot = siblings.iter().last().unwrap().slot();
-        let first_loaded_sibling_slot = siblings.front().unwrap().slot();
-
-        // Load the left and right frontiers from the parent page
-        let (left_frontier_in_parent, right_frontier_in_parent) = {
-            let parent_page = self.get_page(parent_page_id)?;
-
-            // If the first loaded sibling is > 0, this means there are other siblings in the parent at the left of the chain that we have not loaded. We load the last one in order to re-link with the rest of the siblings later.
-            let left = (first_loaded_sibling_slot > 0)
-                .then(|| first_loaded_sibling_slot - 1)
-                .and_then(|child_slot| {
-                    parent_page
-                        .child(child_slot)
-                        .map(|id| BtreePagePosition::new(id, child_slot))
-                });
-
-            // If the last loaded sibling is < last_parent_slot, this means there are other siblings in the parent at the left of the chain that we have not loaded. We load the last one in order to re-link with the rest of the siblings later.
-            let right = (last_loaded_sibling_slot < last_parent_slot)
-                .then(|| last_loaded_sibling_slot + 1)
-                .and_then(|child_slot| {
-                    parent_page
-                        .child(child_slot)
-                        .map(|id| BtreePagePosition::new(id, child_slot))
-                });
-            (left, right)
+        // Take the parent's cells in memory. Those in between siblings get replaced.
+        let (mut parent_cells, mut parent_right_child) = {
+            let parent_page = self.get_page_mut(parent_page_id)?;
+            let cells = parent_page.drain(..).collect::<Vec<OwnedCell>>();
+            (cells, parent_page.right_child())
         };
+        let old_separators: Vec<OwnedCell> = parent_cells.drain(first_slot..last_slot).collect();
 
+        let mut own_cells = Some(own_cells);
         let mut cells = VecDeque::new();
+        let mut last_right_child = None;
+        let mut prev = None;
+        let mut next = None;
+        let mut nodes = Vec::with_capacity(siblings.len());
+        let deallocator = CellDeallocator::new(self.pager.clone());
+        let mut old_separators = old_separators.into_iter();
 
-        // As we remove cells from the parent, slots shrink towards the left.
-        // Therefore we need to always remove the first slot in order to clean up the parent node.
-        let slot_to_remove = siblings[0].slot();
-
-        // Make copies of cells in order.
+        // Collect cells in order.
         for (i, sibling) in siblings.iter().enumerate() {
             // As always, when visiting sibling nodes we need to remember to acquire their corresponding latches, as they might have not been visited before.
-            let sibling_page_id = sibling.entry();
-
-            let page = self.get_page_mut(sibling_page_id)?;
-            cells.extend(page.drain(..));
-
-            // Extract this node's cells and return the right child.
-            let right_child = page.right_child();
-
-            // If we are not the last sibling we can safely link with the next in the chain.
-            // If we are the last sibling we use the right frontier.
-            // If there is no right frontier we are the parent's right most and there is no [next].
-            let next_sibling = siblings
-                .get(i + 1)
-                .map(|s| s.entry())
-                .or(right_frontier_in_parent.map(|f| f.entry()));
-
-            // If the right child is different from None and the next sibling too,
-            // extract the first cell of the first child on our next sibling and allocate a new cell.
-            // This always happens on interior nodes rebalancing, as right_child is not set on leaf nodes.
-            if let Some(right_most_child_id) = right_child
-                && let Some(next_id) = next_sibling
-            {
-                let next_page = self.get_page_mut(next_id)?;
-
-                // Obtain the first child
-                if let Some(first_child_id) = next_page.child(0) {
-                    let child_page = self.get_page_mut(first_child_id)?;
-                    let mut cell = child_page.owned_cell(0);
-
-                    // Make the copied cell point to our right child and push it to the chain.
-                    cell.set_left_child(Some(right_most_child_id));
-                    cells.push_back(cell);
-                };
-            };
-
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            // Remove our entry from the parent node.
-            if slot_to_remove < parent_page.num_slots() {
-                parent_page.remove(slot_to_remove)?;
-            };
-        }
-
-        // Take the last right child of the siblings chain.
-        // For interior pages this is required in order to unfuck the last pointer.
-        let old_right_child = siblings.iter().last().and_then(|last| {
-            let page_id = last.entry();
-            let page = self.get_page_mut(page_id).ok()?;
-            page.right_child()
-        });
-
-        let (total_size_in_each_page, number_of_cells_per_page) =
-            Self::compute_best_cell_distribution(&cells, page_size);
-
-        // Allocate missing pages
-        while siblings.len() < number_of_cells_per_page.len() {
-            // New allocated pages are added at the end.
-            let new_parent_index = siblings.iter().last().unwrap().slot() + 1;
-            let new_page = self.pager.write().allocate_page::<BtreePage>()?;
-            siblings.push_back(Position::new(new_page, new_parent_index));
-        }
-
-        // Free unused pages.
-        while number_of_cells_per_page.len() < siblings.len() {
-            let deallocated_sibling = siblings.pop_back().unwrap();
-            let deallocated_page_id = deallocated_sibling.entry();
-            self.accessor_mut()?.release(deallocated_page_id);
-            self.pager
-                .write()
-                .dealloc_page::<BtreePage>(deallocated_page_id)?;
-        }
-
-        // Put pages in ascending order to favor sequential IO where possible.
-        BinaryHeap::from_iter(siblings.iter().map(|s| Reverse(s.entry())))
-            .iter()
-            .enumerate()
-            .for_each(|(i, Reverse(page))| siblings[i].set_entry(*page));
-
-        // Fix the last child pointer.
-        let last_sibling_id = siblings[siblings.len() - 1].entry();
-        let last_sibling_page = self.get_page_mut(last_sibling_id)?;
-        last_sibling_page.set_right_child(old_right_child);
-
-        // If there is no right frontier at this point, it means the last sibling in the chain is also the parent's right most.
-        if right_frontier_in_parent.is_none() {
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            // Fix pointers in the parent in case we have allocated new pages.
-            parent_page.set_right_child(Some(last_sibling_id));
-        };
-
-        // Obtain the global frontiers considering that if we get out of the bounds of the parent node we need to grab the frontiers from its siblings.
-        let global_left_frontier = left_frontier_in_parent.or(parent_prev_sibling_last);
-        let global_right_frontier = right_frontier_in_parent.or(parent_next_sibling_first);
-
-        // Begin redistribution.
-        for (i, n) in number_of_cells_per_page.iter().enumerate() {
-            let current_iter_id = siblings[i].entry();
-            let current_iter_slot = siblings[i].slot();
+            let sibling_id = sibling.entry();
+            nodes.push(sibling_id);
+            let page = self.get_page_mut(sibling_id)?;
 
-            let current_iter_page = self.get_page_mut(current_iter_id)?;
+            if i == 0 {
+                prev = page.prev_sibling();
+            }
+            next = page.next_sibling();
 
-            // Push all the cells to the child.
-            let num_cells = if is_leaf {
-                *n
+            if sibling_id == page_id {
+                cells.extend(own_cells.take().unwrap_or_default());
             } else {
-                *n - 1 // For interior nodes we reserve the last cell. Which we will propagate to the parent. In leaf nodes we cannot do this since there is where data resides.
-            };
-
-            for _ in 0..num_cells {
-                current_iter_page.push(cells.pop_front().unwrap())?;
+                cells.extend(page.drain(..));
             }
 
-            // Get the previous sibling based on the value of [i]
-            let prev_sibling = if i > 0 {
-                Some(siblings[i - 1].entry())
-            } else {
-                global_left_frontier.map(|p| p.entry())
-            };
+            last_right_child = page.right_child();
 
-            // Set the previous sibling
-            current_iter_page.set_prev_sibling(prev_sibling);
+            if let Some(mut separator) = old_separators.next() {
+                if last_right_child.is_some() {
+                    // On interior nodes the separator comes down with our right most child.
+                    separator.set_left_child(last_right_child);
+                    cells.push_back(separator);
+                } else {
+                    deallocator.deallocate_cell(separator)?;
+                }
+            }
+        }
 
-            // Set the next sibling
-            let next_sibling = if i + 1 < siblings.len() {
-                Some(siblings[i + 1].entry())
-            } else {
-                global_right_frontier.map(|p| p.entry())
-            };
+        let capacity = self.get_page_mut(page_id)?.capacity();
+        let distribution =
+            Self::compute_best_cell_distribution(&cells, capacity, last_right_child.is_none());
 
-            current_iter_page.set_next_sibling(next_sibling);
-
-            // For leaf nodes, we always propagate the first cell of the next node.
-            //
-            // Note that the last node's  next is the right frontier, which gets propagated afterwards.
-            if i < siblings.len() - 1 && is_leaf {
-                // Simply create a copy of the next node's front cell, make it point towards ourselves and propagate.
-                let mut divider = cells.front().unwrap().clone();
-                current_iter_page.set_right_child(divider.left_child());
-                divider.set_left_child(Some(current_iter_id));
-                let parent_page = self.get_page_mut(parent_page_id)?;
-                parent_page.insert(current_iter_slot, divider)?;
-
-            // For interior nodes there are two possible cases.
-            // CASE A: We are not the right most of the parent.
-            // On that case we simply propagate our last cell and also use it as our right most.
-            } else if !is_leaf && (i < siblings.len() - 1 || right_frontier_in_parent.is_some()) {
-                let mut divider = cells.pop_front().unwrap();
-                current_iter_page.set_right_child(divider.left_child());
-                divider.set_left_child(Some(current_iter_id));
-                let parent_page = self.get_page_mut(parent_page_id)?;
-                parent_page.insert(current_iter_slot, divider)?;
-
-            // CASE B: We are the right most of the parent,
-            // Then there is no cell to propagate upwards, so we push an additional cell to ourselves.
-            } else if !is_leaf {
-                current_iter_page.push(cells.pop_front().unwrap())?;
-            };
+        // Allocate missing pages. New allocated pages are added at the end.
+        while nodes.len() < distribution.len() {
+            nodes.push(self.pager.write().allocate_page::<BtreePage>()?);
         }
 
-        // Fix the right frontier in the parent.
-        // For leaf nodes, we propagate the first child as a divider, as we still have not done it in the redistribute section (see upwards).
-        //
-        // For interior nodes this is not necessary as we use the last child of the previous sibling instead.
-        if is_leaf && let Some(frontier) = right_frontier_in_parent {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let last_sibling = siblings[siblings.len() - 1];
-            let last_sibling_id = last_sibling.entry();
-            let last_sibling_slot = last_sibling.slot();
-
-            let mut divider_cell = page.owned_cell(0);
-            divider_cell.set_left_child(Some(last_sibling_id));
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            parent_page.insert(last_sibling_slot, divider_cell)?;
+        // Free unused pages.
+        while distribution.len() < nodes.len() {
+            let unused = nodes.pop().unwrap();
+            self.dealloc_node(unused)?;
         }
 
-        // Fix the global frontier links.
-        // Right frontier
-        if let Some(frontier) = global_right_frontier {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let last_sibling = siblings[siblings.len() - 1];
-            let last_sibling_id = last_sibling.entry();
-            let last_sibling_slot = last_sibling.slot();
-
-            // Maintain it linked with the last sibling in the chain
-            page.set_prev_sibling(Some(last_sibling_id));
-        }
+        let separators = self.fill_nodes(
+            &nodes,
+            &distribution,
+            cells,
+            last_right_child,
+            prev,
+            next,
+            schema,
+        )?;
 
-        // Left frontier.
-        if let Some(frontier) = global_left_frontier {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let next_sibling = siblings.front().map(|p| p.entry());
-            page.set_next_sibling(next_sibling);
-        };
+        // Whoever pointed to our last sibling must point to the new one.
+        let last_node = nodes.last().copied();
+        if first_slot < parent_cells.len() {
+            parent_cells[first_slot].set_left_child(last_node);
+        } else {
+            parent_right_child = last_node;
+        }
+        parent_cells.splice(first_slot..first_slot, separators);
 
         // Done, propagate upwards.
-        self.balance(parent_page_id)?;
-
-        Ok(())
+        self.store_interior(parent_page_id, parent_cells, parent_right_child, schema)
     }
 
     /// Clears the pointers on every page that will be modified on rebalance.
@@ -1563,7 +1431,7 @@ where
     }
 
     /// Grabs the cell one page to another and fix the pointer in the parent.
-    /// Does nothing if the target page does not have enough space to fit the borrowed cell.
+    /// Does nothing if the target page does not have enough space to fit the borrowed cell, or the parent to fit its key.
     fn take_cell_checked(
         &mut self,
         source_page_id: PageId,
@@ -1573,12 +1441,19 @@ where
         target_slot: usize,
         separator_slot: usize,
         direction: BorrowDirection,
+        schema: &Schema,
     ) -> BtreeResult<()> {
+        let (cell, next_cell) = {
+            let source = self.get_page_mut(source_page_id)?;
+            // A node never gives its only cell.
+            if source.num_slots() < 2 {
+                return Ok(());
+            }
+            (source.owned_cell(borrowed_slot), source.owned_cell(1))
+        };
+
         // Size occupied by the cell that would go to the target node.
-        let cell_size = self
-            .get_page_mut(source_page_id)?
-            .cell(borrowed_slot)
-            .storage_size();
+        let cell_size = cell.storage_size();
 
         let can_borrow = self
             .get_page_mut(source_page_id)?
@@ -1593,34 +1468,29 @@ where
             return Ok(());
         };
 
-        // Fantastic! our friend has space for us.
-        // Lets push our cell there.
-        let removed_cell = self.get_page_mut(source_page_id)?.remove(borrowed_slot)?;
-        let left = self.get_page_mut(target_page_id)?;
-        left.insert(target_slot, removed_cell)?;
-
-        // Haha, but now our parent might have fucked up.
-        // We need to unfuck him.
-        // In order to unfuck the parent, we replace the entry that pointed to left with the right node's first key
+        // Our parent's separator must become the first key of the node at the right.
         let divider = match direction {
             BorrowDirection::RightToLeft => {
-                let mut separator = self.get_page_mut(source_page_id)?.owned_cell(0);
-                separator.set_left_child(Some(target_page_id));
-                separator
-            }
-            BorrowDirection::LeftToRight => {
-                let mut separator = self.get_page_mut(target_page_id)?.owned_cell(0);
-                separator.set_left_child(Some(source_page_id));
-                separator
+                self.build_separator(&next_cell, target_page_id, schema)?
             }
+            BorrowDirection::LeftToRight => self.build_separator(&cell, source_page_id, schema)?,
         };
 
+        let deallocator = CellDeallocator::new(self.pager.clone());
         let parent_page = self.get_page_mut(parent_id)?;
-        if parent_page.num_slots() == separator_slot {
-            parent_page.set_right_child(divider.left_child());
-        } else {
-            parent_page.replace(separator_slot, divider)?;
-        };
+        let replaceable = parent_page.cell(separator_slot).storage_size();
+        if parent_page.free_space() as usize + replaceable < divider.storage_size() {
+            deallocator.deallocate_cell(divider)?;
+            return Ok(());
+        }
+        let old_divider = parent_page.replace(separator_slot, divider)?;
+        deallocator.deallocate_cell(old_divider)?;
+
+        // Fantastic! our friend has space for us.
+        // Lets push our cell there.
+        let removed_cell = self.get_page_mut(source_page_id)?.remove(borrowed_slot)?;
+        self.get_page_mut(target_page_id)?
+            .insert(target_slot, removed_cell)?;
 
         Ok(())
     }
@@ -1631,6 +1501,7 @@ where
         &mut self,
         page_id: PageId,
         parent_pos: &BtreePagePosition,
+        schema: &Schema,
     ) -> BtreeResult<()> {
         let is_leaf = self.get_page_mut(page_id)?.is_leaf();
 
@@ -1668,6 +1539,7 @@ where
                         target_slot,
                         separator_slot,
                         BorrowDirection::RightToLeft,
+                        schema,
                     )?;
                 };
 
@@ -1690,6 +1562,7 @@ where
                         0,
                         separator_slot,
                         BorrowDirection::LeftToRight,
+                        schema,
                     )?;
                 };
                 Ok(())
@@ -1714,6 +1587,7 @@ where
                         target_slot,
                         separator_slot,
                         BorrowDirection::RightToLeft,
+                        schema,
                     )?;
                 };
 
@@ -1736,6 +1610,7 @@ where
                         0,
                         separator_slot,
                         BorrowDirection::LeftToRight,
+                        schema,
                     )?;
                 };
 
-- 
2.43.0


From fc671fab966365ae1ca734ca0b0cd591da63a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 09/30] fix: numbers of every type compare, hash and cast by
 exact value; integer arithmetic is checked

---
 crates/axmos-db/src/types/bool.rs            |  2 +-
 crates/axmos-db/src/types/core.rs            | 89 +++++++++++++++++-
 crates/axmos-db/src/types/macros/datatype.rs | 97 +++++++++++---------
 crates/axmos-db/src/types/macros/numeric.rs  | 73 ++++-----------
 crates/axmos-db/src/types/mod.rs             | 33 ++-----
 crates/axmos-db/src/types/numeric.rs         |  5 +-
 6 files changed, 174 insertions(+), 125 deletions(-)

diff --git a/crates/axmos-db/src/types/bool.rs b/crates/axmos-db/src/types/bool.rs
index 23d3533..fbc118e 100644
--- a/crates/axmos-db/src/types/bool.rs
+++ b/crates/axmos-db/src/types/bool.rs
@@ -286,7 +286,7 @@ impl Hashable for Bool {
 
 impl SerializableType for Bool {
     fn write_to(&self, writer: &mut [u8], cursor: usize) -> SerializationResult<usize> {
-        writer[cursor..].copy_from_slice(&[self.0 as u8]);
+        writer[cursor] = self.0 as u8;
         Ok(cursor + 1)
     }
 }
diff --git a/crates/axmos-db/src/types/core.rs b/crates/axmos-db/src/types/core.rs
index 2c31f95..9366955 100644
--- a/crates/axmos-db/src/types/core.rs
+++ b/crates/axmos-db/src/types/core.rs
@@ -2,6 +2,7 @@ use bytemuck::{Pod, Zeroable};
 use std::{
     cmp::Ordering,
     fmt::{Debug, Display, Formatter, Result as FmtResult},
+    hash::{Hash, Hasher},
     ops::{Add, Deref, Div, Mul, Rem, Sub},
 };
 
@@ -382,6 +383,90 @@ impl<T: AsRef<[u8]>> Hashable for T {
     }
 }
 
+/// A number of any of the numeric types, with its exact mathematical value.
+///
+/// Integral values are always held as integers, so that equal numbers have one representation.
+/// The order is total: NaN equals itself and comes after every other number.
+#[derive(Debug, Clone, Copy)]
+pub(crate) enum ExactNumber {
+    Integer(i128),
+    Real(f64),
+}
+
+impl From<i128> for ExactNumber {
+    fn from(value: i128) -> Self {
+        Self::Integer(value)
+    }
+}
+
+impl From<f64> for ExactNumber {
+    fn from(value: f64) -> Self {
+        // Above 2^53 every double is integral, below 2^127 it fits in an i128.
+        const LIMIT: f64 = 1.7e38;
+        if value.trunc() == value && value.abs() < LIMIT {
+            Self::Integer(value as i128)
+        } else {
+            Self::Real(value)
+        }
+    }
+}
+
+impl Ord for ExactNumber {
+    fn cmp(&self, other: &Self) -> Ordering {
+        match (self, other) {
+            (Self::Integer(a), Self::Integer(b)) => a.cmp(b),
+            (Self::Real(a), Self::Real(b)) => match (a.is_nan(), b.is_nan()) {
+                (false, false) => a.partial_cmp(b).unwrap_or(Ordering::Equal),
+                (a, b) => a.cmp(&b),
+            },
+            (Self::Integer(a), Self::Real(b)) => {
+                if b.is_nan() || *b >= i128::MAX as f64 {
+                    Ordering::Less
+                } else if *b <= i128::MIN as f64 {
+                    Ordering::Greater
+                } else {
+                    // A real that is not integral: the integer equal to its floor is below it
+                    match a.cmp(&(b.floor() as i128)) {
+                        Ordering::Equal => {
+                            if b.floor() < *b {
+                                Ordering::Less
+                            } else {
+                                Ordering::Equal
+                            }
+                        }
+                        ord => ord,
+                    }
+                }
+            }
+            (Self::Real(_), Self::Integer(_)) => other.cmp(self).reverse(),
+        }
+    }
+}
+
+impl PartialOrd for ExactNumber {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl PartialEq for ExactNumber {
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other) == Ordering::Equal
+    }
+}
+
+impl Eq for ExactNumber {}
+
+impl Hash for ExactNumber {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        match self {
+            Self::Integer(v) => v.hash(state),
+            Self::Real(v) if v.is_nan() => f64::NAN.to_bits().hash(state),
+            Self::Real(v) => v.to_bits().hash(state),
+        }
+    }
+}
+
 pub trait NumericAbs {
     fn numeric_abs(self) -> Self;
 }
@@ -396,13 +481,13 @@ pub trait NumericRoundOps {
 // Implementations for signed integers
 impl NumericAbs for i32 {
     fn numeric_abs(self) -> Self {
-        self.abs()
+        self.wrapping_abs()
     }
 }
 
 impl NumericAbs for i64 {
     fn numeric_abs(self) -> Self {
-        self.abs()
+        self.wrapping_abs()
     }
 }
 
diff --git a/crates/axmos-db/src/types/macros/datatype.rs b/crates/axmos-db/src/types/macros/datatype.rs
index 5241034..e21cff4 100644
--- a/crates/axmos-db/src/types/macros/datatype.rs
+++ b/crates/axmos-db/src/types/macros/datatype.rs
@@ -13,16 +13,12 @@ macro_rules! impl_datatype_partial_eq {
                     (Self::Bool(a), Self::Bool(b)) => a == b,
                     (Self::Blob(a), Self::Blob(b)) => a == b,
 
-                    // Numeric types are promoted to f64 to compare
-                    (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x == y,
-                            _ => false,
-                        }
-                    }
-
-                    // Different type categories are not equal
-                    _ => false,
+                    // Numeric types are compared by their mathematical value
+                    (a, b) => match (a.to_exact(), b.to_exact()) {
+                        (Some(x), Some(y)) => x == y,
+                        // Different type categories are not equal
+                        _ => false,
+                    },
                 }
             }
         }
@@ -44,16 +40,12 @@ macro_rules! impl_datatype_partial_ord {
                     // Blob uses lexicographic ordering
                     (Self::Blob(a), Self::Blob(b)) => a.partial_cmp(b),
 
-                    // Numeric types are promoted to f64 and compared
-                    (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x.partial_cmp(&y),
-                            _ => None,
-                        }
-                    }
-
-                    // Different type categories cannot be compared
-                    _ => None,
+                    // Numeric types are compared by their mathematical value
+                    (a, b) => match (a.to_exact(), b.to_exact()) {
+                        (Some(x), Some(y)) => Some(x.cmp(&y)),
+                        // Different type categories cannot be compared
+                        _ => None,
+                    },
                 }
             }
         }
@@ -63,6 +55,40 @@ macro_rules! impl_datatype_partial_ord {
 #[macro_export]
 macro_rules! impl_datatype_ord_traits {
     ($($type_name:tt)+) => {
+        impl $($type_name)+ {
+            /// Hash of the value: equal values hash alike.
+            pub fn hash128(&self) -> u128 {
+                use $crate::types::core::{ExactNumber, Hashable};
+                match self {
+                    Self::Null => 0,
+                    Self::Bool(b) => b.value() as u128,
+                    Self::Blob(b) => AsRef::<[u8]>::as_ref(b).hash128(),
+                    number => match number.to_exact() {
+                        Some(ExactNumber::Integer(v)) => v.to_le_bytes().hash128(),
+                        Some(ExactNumber::Real(v)) if v.is_nan() => {
+                            f64::NAN.to_le_bytes().hash128()
+                        }
+                        Some(ExactNumber::Real(v)) => v.to_le_bytes().hash128(),
+                        None => 0,
+                    },
+                }
+            }
+
+            /// The exact value of the numeric variants, [None] for any other.
+            #[inline]
+            pub(crate) fn to_exact(&self) -> Option<$crate::types::core::ExactNumber> {
+                use $crate::types::core::ExactNumber;
+                match self {
+                    Self::Int(v) => Some(ExactNumber::from(v.0 as i128)),
+                    Self::BigInt(v) => Some(ExactNumber::from(v.0 as i128)),
+                    Self::UInt(v) => Some(ExactNumber::from(v.0 as i128)),
+                    Self::BigUInt(v) => Some(ExactNumber::from(v.0 as i128)),
+                    Self::Float(v) => Some(ExactNumber::from(v.0 as f64)),
+                    Self::Double(v) => Some(ExactNumber::from(v.0)),
+                    _ => None,
+                }
+            }
+        }
         $crate::impl_datatype_partial_eq!($($type_name)+);
         $crate::impl_datatype_partial_ord!($($type_name)+);
 
@@ -82,30 +108,15 @@ macro_rules! impl_datatype_hash {
                         1u8.hash(state);
                         (b.value() as u8).hash(state);
                     }
-                    // Numerics are converted to bits using the same discriminant
-                    Self::Int(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::UInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigUInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Float(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Double(v) => {
+                    // Equal numbers hash alike whatever their type
+                    Self::Int(_)
+                    | Self::BigInt(_)
+                    | Self::UInt(_)
+                    | Self::BigUInt(_)
+                    | Self::Float(_)
+                    | Self::Double(_) => {
                         2u8.hash(state);
-                        v.0.to_bits().hash(state);
+                        self.to_exact().hash(state);
                     }
                     Self::Blob(b) => {
                         3u8.hash(state);
diff --git a/crates/axmos-db/src/types/macros/numeric.rs b/crates/axmos-db/src/types/macros/numeric.rs
index c64b163..2f1e89d 100644
--- a/crates/axmos-db/src/types/macros/numeric.rs
+++ b/crates/axmos-db/src/types/macros/numeric.rs
@@ -133,7 +133,7 @@ macro_rules! promote_symmetric {
 
 #[macro_export]
 macro_rules! arithmetic_op {
-    ($method:ident, $trait_method:ident) => {
+    ($method:ident, $trait_method:ident, $checked:ident) => {
         pub fn $method(&self, other: &DataType) -> TypeSystemResult<DataType> {
             use crate::types::core::*;
 
@@ -202,58 +202,25 @@ macro_rules! arithmetic_op {
                     Ok(DataType::Double(Float64(a.$trait_method(*b))))
                 }
 
-                // Signed int combinations
-                (DataType::BigInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-
-                // Signed + Unsigned
-                (DataType::BigInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigUInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigUInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-
-                // Unsigned combinations
-                (DataType::BigUInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-                (DataType::BigUInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                // Integer combinations: unsigned results when both sides are unsigned
+                (a, b) if a.is_numeric() && b.is_numeric() => {
+                    let (Some(ExactNumber::Integer(x)), Some(ExactNumber::Integer(y))) =
+                        (a.to_exact(), b.to_exact())
+                    else {
+                        return Err(TypeSystemError::UnexpectedDataType(a.kind()));
+                    };
+                    let unsigned = |v: &DataType| matches!(v, DataType::UInt(_) | DataType::BigUInt(_));
+                    let result = match x.$checked(y) {
+                        Some(result) => result,
+                        None if y == 0 => return Err(TypeSystemError::DivisionByZero),
+                        None => return Err(TypeSystemError::NumericOutOfRange),
+                    };
+                    let converted = if unsigned(a) && unsigned(b) {
+                        u64::try_from(result).map(|v| DataType::BigUInt(UInt64(v)))
+                    } else {
+                        i64::try_from(result).map(|v| DataType::BigInt(Int64(v)))
+                    };
+                    converted.map_err(|_| TypeSystemError::NumericOutOfRange)
                 }
 
                 // Non-numeric
diff --git a/crates/axmos-db/src/types/mod.rs b/crates/axmos-db/src/types/mod.rs
index d41262f..4297ad5 100644
--- a/crates/axmos-db/src/types/mod.rs
+++ b/crates/axmos-db/src/types/mod.rs
@@ -77,6 +77,8 @@ impl From<IoError> for SerializationError {
 pub enum TypeSystemError {
     Utf8Error(Utf8Error),
     UnexpectedDataType(DataTypeKind),
+    NumericOutOfRange,
+    DivisionByZero,
     SerializationError(SerializationError),
 }
 
@@ -87,6 +89,8 @@ impl Display for TypeSystemError {
         match self {
             Self::Utf8Error(e) => write!(f, "utf8 error: {e}"),
             Self::SerializationError(e) => write!(f, "deserialization error: {e}"),
+            Self::NumericOutOfRange => f.write_str("numeric value out of range"),
+            Self::DivisionByZero => f.write_str("division by zero"),
             Self::UnexpectedDataType(dt) => write!(f, "unexpected data type: {dt}"),
         }
     }
@@ -106,25 +110,6 @@ pub type TypeSystemResult<T> = Result<T, TypeSystemError>;
 pub type SerializationResult<T> = Result<T, SerializationError>;
 
 #[derive(Debug, Clone, AutogeneratedDataType)]
-#[delegate(
-    trait = "crate::types::core::Hashable",
-    method = "hash128",
-    return_type = "u128",
-    default = "0"
-)]
-#[delegate(
-    trait = "crate::types::core::Hashable",
-    method = "hash128",
-    target = "ref",
-    return_type = "u128",
-    default = "0"
-)]
-#[delegate(
-    trait = "crate::types::core::Hashable",
-    method = "hash64",
-    return_type = "u64",
-    default = "0"
-)]
 #[delegate(
     trait = "crate::types::core::RuntimeSized",
     method = "runtime_size",
@@ -289,11 +274,11 @@ crate::impl_datatype_hash!(DataType);
 crate::impl_datatype_hash!(DataTypeRef<'_>);
 
 impl DataType {
-    arithmetic_op!(add, promoted_add);
-    arithmetic_op!(sub, promoted_sub);
-    arithmetic_op!(mul, promoted_mul);
-    arithmetic_op!(div, promoted_div);
-    arithmetic_op!(rem, promoted_rem);
+    arithmetic_op!(add, promoted_add, checked_add);
+    arithmetic_op!(sub, promoted_sub, checked_sub);
+    arithmetic_op!(mul, promoted_mul, checked_mul);
+    arithmetic_op!(div, promoted_div, checked_div);
+    arithmetic_op!(rem, promoted_rem, checked_rem);
 
     /// Try to cast this DataType to a different DataTypeKind
     pub fn try_cast(&self, target: DataTypeKind) -> TypeSystemResult<DataType> {
diff --git a/crates/axmos-db/src/types/numeric.rs b/crates/axmos-db/src/types/numeric.rs
index 4cf3281..fcad960 100644
--- a/crates/axmos-db/src/types/numeric.rs
+++ b/crates/axmos-db/src/types/numeric.rs
@@ -86,7 +86,8 @@ fn f64_to_signed<T>(value: f64, min: f64, max: f64, convert: fn(i64) -> T) -> Op
     if t < min || t > max {
         return None;
     }
-    Some(convert(t as i64))
+    // The maximum may have been rounded up when it was converted to a float
+    i64::try_from(t as i128).ok().map(convert)
 }
 
 #[inline]
@@ -95,7 +96,7 @@ fn f64_to_unsigned<T>(value: f64, max: f64, convert: fn(u64) -> T) -> Option<T>
         return None;
     }
     let t = value.trunc();
-    if t > max {
+    if t > max || t as u128 > u64::MAX as u128 {
         return None;
     }
     Some(convert(t as u64))
-- 
2.43.0


From e71d7a600d324967d4c6a356eb607061218c338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 10/30] fix: integer literals keep all their digits; integer
 negation never overflows

---
 crates/axmos-db/src/runtime/eval.rs        | 13 +++++++++++--
 crates/axmos-db/src/sql/binder/analyzer.rs | 14 ++++++++++++--
 crates/axmos-db/src/sql/binder/binder.rs   | 11 +++++++++++
 crates/axmos-db/src/sql/parser/ast.rs      |  3 +++
 crates/axmos-db/src/sql/parser/lexer.rs    | 16 +++++++++++++---
 crates/axmos-db/src/sql/parser/mod.rs      |  5 +++++
 6 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 7455be8..03b6d9a 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -511,8 +511,17 @@ impl<'a> ExpressionEvaluator<'a> {
                 )),
             },
             UnaryOperator::Minus => match operand {
-                DataType::BigInt(i) => Ok(DataType::BigInt((-i.0).into())),
-                DataType::Int(i) => Ok(DataType::Int((-i.0).into())),
+                // Integers are negated exactly: the result may need the wider signed type
+                DataType::Int(_)
+                | DataType::BigInt(_)
+                | DataType::UInt(_)
+                | DataType::BigUInt(_) => {
+                    let negated = DataType::Int(0.into()).sub(&operand)?;
+                    match negated.try_cast(operand.kind()) {
+                        Ok(same_kind) => Ok(same_kind),
+                        Err(_) => Ok(negated),
+                    }
+                }
                 DataType::Double(f) => Ok(DataType::Double((-f.0).into())),
                 DataType::Float(f) => Ok(DataType::Float((-f.0).into())),
                 _ => Err(EvaluationError::TypeError(
diff --git a/crates/axmos-db/src/sql/binder/analyzer.rs b/crates/axmos-db/src/sql/binder/analyzer.rs
index 34f6f04..679c66c 100644
--- a/crates/axmos-db/src/sql/binder/analyzer.rs
+++ b/crates/axmos-db/src/sql/binder/analyzer.rs
@@ -291,7 +291,12 @@ impl Analyzer {
                 Ok(())
             }
             // Literals don't need validation
-            Expr::Number(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null | Expr::Star => {
+            Expr::Number(_)
+            | Expr::Integer(_)
+            | Expr::String(_)
+            | Expr::Boolean(_)
+            | Expr::Null
+            | Expr::Star => {
                 Ok(())
             }
         }
@@ -402,6 +407,7 @@ impl Analyzer {
     fn infer_expr_type(&self, expr: &Expr) -> AnalyzerResult<DataTypeKind> {
         match expr {
             Expr::Number(_) => Ok(DataTypeKind::Double),
+            Expr::Integer(_) => Ok(DataTypeKind::BigInt),
             Expr::String(_) => Ok(DataTypeKind::Blob),
             Expr::Boolean(_) => Ok(DataTypeKind::Bool),
             Expr::Null => Ok(DataTypeKind::Null),
@@ -871,7 +877,11 @@ impl Analyzer {
     /// Validates expressions that don't require table scope (literals, simple expressions)
     fn validate_literal_expr(&self, expr: &Expr) -> AnalyzerResult<()> {
         match expr {
-            Expr::Number(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null => Ok(()),
+            Expr::Number(_)
+            | Expr::Integer(_)
+            | Expr::String(_)
+            | Expr::Boolean(_)
+            | Expr::Null => Ok(()),
             Expr::UnaryOp { expr, .. } => self.validate_literal_expr(expr),
             Expr::BinaryOp { left, right, .. } => {
                 self.validate_literal_expr(left)?;
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 71a13a8..1a1e602 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -743,6 +743,7 @@ impl<'a> Binder<'a> {
     fn bind_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
+            Expr::Integer(n) => Ok(self.bind_integer(*n)),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -974,6 +975,7 @@ impl<'a> Binder<'a> {
     fn bind_literal_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
+            Expr::Integer(n) => Ok(self.bind_integer(*n)),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -1010,6 +1012,15 @@ impl<'a> Binder<'a> {
         }
     }
 
+    fn bind_integer(&self, n: u64) -> BoundExpression {
+        let value = match i64::try_from(n) {
+            Ok(n) => DataType::BigInt(n.into()),
+            Err(_) => DataType::BigUInt(n.into()),
+        };
+
+        BoundExpression::Literal { value }
+    }
+
     fn bind_number(&self, n: f64) -> BoundExpression {
         let is_int = n.fract() == 0.0;
 
diff --git a/crates/axmos-db/src/sql/parser/ast.rs b/crates/axmos-db/src/sql/parser/ast.rs
index 5ec3666..b700108 100644
--- a/crates/axmos-db/src/sql/parser/ast.rs
+++ b/crates/axmos-db/src/sql/parser/ast.rs
@@ -9,6 +9,8 @@ pub(crate) trait Simplify {
 pub(crate) enum Expr {
     // Literals
     Number(f64),
+    /// Integer literal that a float may not hold exactly.
+    Integer(u64),
     String(String),
     Boolean(bool),
     Null,
@@ -783,6 +785,7 @@ impl Display for Expr {
     fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
         match self {
             Expr::Number(n) => write!(f, "{n}"),
+            Expr::Integer(n) => write!(f, "{n}"),
             Expr::String(s) => write!(f, "'{s}'"),
             Expr::Boolean(b) => write!(f, "{}", if *b { "TRUE" } else { "FALSE" }),
             Expr::Null => write!(f, "NULL"),
diff --git a/crates/axmos-db/src/sql/parser/lexer.rs b/crates/axmos-db/src/sql/parser/lexer.rs
index e4bfb20..9f8c747 100644
--- a/crates/axmos-db/src/sql/parser/lexer.rs
+++ b/crates/axmos-db/src/sql/parser/lexer.rs
@@ -123,6 +123,8 @@ pub enum Token {
     Identifier(String),
     StringLiteral(String),
     NumberLiteral(f64),
+    /// Integer literal that a float may not hold exactly.
+    IntegerLiteral(u64),
 
     // Symbols and operators
     Star,      // *
@@ -153,6 +155,7 @@ impl fmt::Display for Token {
             Token::Identifier(s) => write!(f, "{s}"),
             Token::StringLiteral(s) => write!(f, "'{s}'"),
             Token::NumberLiteral(n) => write!(f, "{n}"),
+            Token::IntegerLiteral(n) => write!(f, "{n}"),
             Token::Star => write!(f, "*"),
             Token::Comma => write!(f, ","),
             Token::Dot => write!(f, "."),
@@ -176,6 +179,9 @@ impl fmt::Display for Token {
     }
 }
 
+/// Every integer up to this one has an exact float representation.
+const MAX_EXACT_INTEGER: u64 = 1 << 53;
+
 /// ESCAPE QUOTE IS A CONSTANT FOR THE LEXER PROGRAM.
 const ESCAPE_QUOTE: char = '\'';
 const DOUBLE_QUOTE: char = '"';
@@ -282,7 +288,7 @@ impl Lexer {
 
     // Read a number from the input buffer.
     // On my implementation, decimals are represented with dots.
-    fn read_number(&mut self) -> f64 {
+    fn read_number(&mut self) -> Token {
         let mut num_str = String::new();
 
         while let Some(ch) = self.current_char {
@@ -294,7 +300,11 @@ impl Lexer {
             }
         }
 
-        num_str.parse().unwrap_or(0.0)
+        // Integers above 2^53 keep all their digits
+        match num_str.parse::<u64>() {
+            Ok(n) if n > MAX_EXACT_INTEGER => Token::IntegerLiteral(n),
+            _ => Token::NumberLiteral(num_str.parse().unwrap_or(0.0)),
+        }
     }
 
     /// Read an identifier from the input buffer.
@@ -339,7 +349,7 @@ impl Lexer {
                 }
                 Token::Identifier(ident)
             }
-            Some(ch) if ch.is_ascii_digit() => Token::NumberLiteral(self.read_number()),
+            Some(ch) if ch.is_ascii_digit() => self.read_number(),
             Some(ch) if ch.is_alphabetic() || ch == '_' => {
                 let ident = self.read_identifier();
                 keyword_to_token(&ident)
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index a404639..1c94800 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -109,6 +109,11 @@ impl Parser {
                 self.next_token();
                 Ok(Expr::Number(num))
             }
+            Token::IntegerLiteral(n) => {
+                let num = *n;
+                self.next_token();
+                Ok(Expr::Integer(num))
+            }
             Token::StringLiteral(s) => {
                 let string = s.clone();
                 self.next_token();
-- 
2.43.0


From 1b9d9c0676caab1d965c498568c4f16fb092fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 11/30] fix: the literal 2^63 is not clamped to the largest
 BIGINT

---
 crates/axmos-db/src/sql/binder/binder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 1a1e602..161cad7 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -1026,7 +1026,7 @@ impl<'a> Binder<'a> {
 
         let value = if is_int && n >= i32::MIN as f64 && n <= i32::MAX as f64 {
             DataType::Int((n as i32).into())
-        } else if is_int && n >= i64::MIN as f64 && n <= i64::MAX as f64 {
+        } else if is_int && n >= i64::MIN as f64 && n < i64::MAX as f64 {
             DataType::BigInt((n as i64).into())
         } else {
             DataType::Double(n.into())
-- 
2.43.0


From fdd888c9ff2db3b6b90fa864c5db1a8ecaf69083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 12/30] fix: row versions carry their own creator, keep their
 alignment and survive trimming while a snapshot needs them

---
 crates/axmos-db/src/runtime/dml.rs    |   9 +-
 crates/axmos-db/src/schema/catalog.rs |   7 +-
 crates/axmos-db/src/storage/tuple.rs  | 234 +++++++++++++-------------
 crates/axmos-db/src/verif.rs          |   7 +-
 4 files changed, 132 insertions(+), 125 deletions(-)

diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 28a9ef9..2006ba7 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -309,7 +309,7 @@ impl DmlExecutor {
 
         // Apply the update
         let mut updated_tuple = tuple.clone();
-        updated_tuple.add_version_with(&assignments, tid, &schema)?;
+        updated_tuple.add_version_with(&assignments, tuple.xmin(), &schema)?;
 
         // Get the new row for index maintenance
         let new_row = updated_tuple
@@ -585,11 +585,8 @@ impl DmlExecutor {
                         })?;
 
                         if let Some(mut tuple) = updated {
-                            tuple.add_version_with(
-                                &index_assignments,
-                                snapshot.xid(),
-                                index_schema,
-                            )?;
+                            let xmin = tuple.xmin();
+                            tuple.add_version_with(&index_assignments, xmin, index_schema)?;
                             index_btree.update(index_root, tuple, index_schema)?;
                         }
                     }
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index bee2180..ce032af 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -433,7 +433,9 @@ impl Catalog {
                             tuples_to_remove.push(tuple);
                             freed
                         } else {
-                            let freed = tuple.vaccum_with(oldest_active_xid, schema)?;
+                            let freed = tuple.vaccum_with(oldest_active_xid, schema, |xid| {
+                                snapshot.is_transaction_aborted(xid)
+                            })?;
                             if freed > 0 {
                                 tuples_to_vaccum.push(tuple);
                             };
@@ -515,7 +517,8 @@ impl Catalog {
             return Ok(());
         };
 
-        tuple.add_version_with(&changes, snapshot.xid(), &schema)?;
+        let xmin = tuple.xmin();
+        tuple.add_version_with(&changes, xmin, &schema)?;
         let result = meta_table.update(self.meta_table, tuple, &schema)?;
 
         Ok(())
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 555b247..a3205a2 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -82,6 +82,20 @@ fn null_bitmap_size(num_values: usize) -> usize {
     num_values.div_ceil(8)
 }
 
+/// Size of the number of changes and of each field index in a delta.
+const DELTA_INDEX_SIZE: usize = std::mem::size_of::<u16>();
+
+#[inline]
+fn read_delta_index(data: &[u8], offset: usize) -> usize {
+    u16::from_le_bytes([data[offset], data[offset + 1]]) as usize
+}
+
+#[inline]
+fn write_delta_index(buffer: &mut [u8], offset: usize, value: u16) -> usize {
+    buffer[offset..offset + DELTA_INDEX_SIZE].copy_from_slice(&value.to_le_bytes());
+    offset + DELTA_INDEX_SIZE
+}
+
 #[inline]
 fn aligned_offset(offset: usize, align: usize) -> usize {
     (offset + align - 1) & !(align - 1)
@@ -314,8 +328,8 @@ impl DeltaHeader {
 
 /// LAYOUT: [Header][Null Bitmap][Keys (aligned)][Values (aligned)][Deltas...]
 ///
-/// Delta layout: [DeltaHeader][num_changes: u8][bitmap][changes...]
-/// Each change: [field_idx: u8][value (aligned)]
+/// Delta layout: [DeltaHeader][num_changes: u16][bitmap][changes...]
+/// Each change: [field_idx: u16][value (aligned)]
 #[derive(Debug, Clone)]
 pub(crate) struct TupleLayout {
     /// Metadata about the tuple status in the database
@@ -536,8 +550,8 @@ impl<'a> TupleReader<'a> {
         let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
 
-        // Delta layout: [DeltaHeader][num_changes: u8][full_bitmap][changes...]
-        while cursor < data.len() {
+        // Delta layout: [DeltaHeader][num_changes: u16][full_bitmap][changes...]
+        while DeltaHeader::aligned_offset(cursor) < data.len() {
             let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
             cursor = header_end;
 
@@ -546,8 +560,8 @@ impl<'a> TupleReader<'a> {
             layout.version_xmin = delta_header.xmin();
 
             // Read number of changes
-            let num_changes = data[cursor] as usize;
-            cursor += 1;
+            let num_changes = read_delta_index(data, cursor);
+            cursor += DELTA_INDEX_SIZE;
 
             // Delta's FULL null bitmap
             layout.null_bitmap_start = cursor;
@@ -556,8 +570,8 @@ impl<'a> TupleReader<'a> {
 
             // Parse changes - only non-null values have data
             for _ in 0..num_changes {
-                let field_idx = data[cursor] as usize;
-                cursor += 1;
+                let field_idx = read_delta_index(data, cursor);
+                cursor += DELTA_INDEX_SIZE;
 
                 // Check if this field is null using the delta's full bitmap
                 let is_null = Self::check_null(delta_bitmap, field_idx);
@@ -592,9 +606,9 @@ impl<'a> TupleReader<'a> {
     ) -> TupleResult<Option<TupleLayout>> {
         let mut layout = self.parse_last_version(data)?;
 
-        // Check if tuple was deleted before our snapshot
+        // Check if tuple was deleted before our snapshot, or by ourselves
         if let Some(xmax) = layout.version_xmax {
-            if snapshot.is_committed_before_snapshot(xmax) {
+            if snapshot.is_committed_before_snapshot(xmax) || snapshot.xid() == xmax {
                 return Ok(None);
             }
         }
@@ -608,7 +622,7 @@ impl<'a> TupleReader<'a> {
         let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
 
-        while cursor < data.len() {
+        while DeltaHeader::aligned_offset(cursor) < data.len() {
             let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
             cursor = header_end;
 
@@ -616,8 +630,8 @@ impl<'a> TupleReader<'a> {
             layout.version = delta_header.version();
             layout.version_xmin = delta_header.xmin();
 
-            let num_changes = data[cursor] as usize;
-            cursor += 1;
+            let num_changes = read_delta_index(data, cursor);
+            cursor += DELTA_INDEX_SIZE;
 
             // Delta's FULL null bitmap - valid for ALL values
             layout.null_bitmap_start = cursor;
@@ -626,8 +640,8 @@ impl<'a> TupleReader<'a> {
 
             // Parse changes and update value_offsets for non-null changed values
             for _ in 0..num_changes {
-                let field_idx = data[cursor] as usize;
-                cursor += 1;
+                let field_idx = read_delta_index(data, cursor);
+                cursor += DELTA_INDEX_SIZE;
 
                 // Check if this field is null using the delta's full bitmap
                 let is_null = Self::check_null(delta_bitmap, field_idx);
@@ -646,7 +660,11 @@ impl<'a> TupleReader<'a> {
                 // If null, the offset doesn't matter - null check happens first
             }
 
-            if snapshot.is_committed_before_snapshot(layout.version_xmin) {
+            // Every newer version is invisible to the snapshot, so only the creator of
+            // this one matters.
+            if snapshot.xid() == layout.version_xmin
+                || snapshot.is_committed_before_snapshot(layout.version_xmin)
+            {
                 return Ok(Some(layout));
             }
         }
@@ -654,6 +672,38 @@ impl<'a> TupleReader<'a> {
         Ok(None)
     }
 
+    /// Reads the delta at [offset] without applying it.
+    ///
+    /// Returns its header and the offset where its last change ends.
+    fn skip_delta(&self, data: &[u8], offset: usize) -> TupleResult<(DeltaHeader, usize)> {
+        let bitmap_size = null_bitmap_size(self.schema.num_values());
+        let (delta_header, header_end) = DeltaHeader::read_from(data, offset);
+
+        let num_changes = read_delta_index(data, header_end);
+        let mut cursor = header_end + DELTA_INDEX_SIZE;
+
+        let delta_bitmap = &data[cursor..cursor + bitmap_size];
+        cursor += bitmap_size;
+
+        for _ in 0..num_changes {
+            let field_idx = read_delta_index(data, cursor);
+            cursor += DELTA_INDEX_SIZE;
+
+            // If null, no data was written
+            if !Self::check_null(delta_bitmap, field_idx) {
+                let dtype = self
+                    .schema
+                    .value(field_idx)
+                    .ok_or(TupleError::ValueError(field_idx))?
+                    .datatype();
+                let (_, new_cursor) = dtype.deserialize(data, cursor)?;
+                cursor = new_cursor;
+            }
+        }
+
+        Ok((delta_header, cursor))
+    }
+
     #[inline]
     fn check_null(bitmap: &[u8], val_idx: usize) -> bool {
         let byte_idx = val_idx / 8;
@@ -846,8 +896,8 @@ impl Display for DeltaHeader {
 }
 
 /// Layout: [Header][Null Bitmap][Keys][Values][Delta0][Delta1]...[DeltaN]
-/// Delta: [DeltaHeader][num_changes: u8][bitmap][changes...]
-/// Change: [field_idx: u8][value (aligned)]
+/// Delta: [DeltaHeader][num_changes: u16][bitmap][changes...]
+/// Change: [field_idx: u16][value (aligned)]
 #[derive(Clone)]
 pub(crate) struct Tuple {
     data: Payload,
@@ -926,7 +976,9 @@ impl Tuple {
         schema: &Schema,
         snapshot: &Snapshot,
     ) -> TupleResult<usize> {
-        self.vaccum_with(snapshot.xmin(), schema)
+        self.vaccum_with(snapshot.xmin(), schema, |xid| {
+            snapshot.is_transaction_aborted(xid)
+        })
     }
 
     pub(crate) fn xmin(&self) -> TransactionId {
@@ -964,12 +1016,12 @@ impl Tuple {
     ///
     /// Each delta contains:
     /// ```text
-    /// [DeltaHeader][num_changes: u8][full_null_bitmap][changes...]
+    /// [DeltaHeader][num_changes: u16][full_null_bitmap][changes...]
     /// ```
     ///
     /// Where each change is:
     /// ```text
-    /// [field_idx: u8][value_bytes (if not null)]
+    /// [field_idx: u16][value_bytes (if not null)]
     /// ```
     pub(crate) fn add_version_with(
         &mut self,
@@ -1015,9 +1067,9 @@ impl Tuple {
 
         let mut cursor = 0;
 
-        // Write header
-        let original_xmin = self.xmin();
-        let header = TupleHeader::new(old_version + 1, original_xmin, None);
+        // Write header. Versions wrap around: their number only labels them, the order in
+        // the tuple is the order of the history.
+        let header = TupleHeader::new(old_version.wrapping_add(1), new_xmin, None);
         cursor = header.write_to(buffer, cursor);
 
         // Write null bitmap for new values
@@ -1042,6 +1094,7 @@ impl Tuple {
 
         // Copy existing deltas
         if existing_deltas_size > 0 {
+            cursor = DeltaHeader::aligned_offset(cursor);
             let existing_deltas = &self.data.effective_data()[existing_deltas_start..];
             buffer[cursor..cursor + existing_deltas_size].copy_from_slice(existing_deltas);
         }
@@ -1087,7 +1140,7 @@ impl Tuple {
         current: &TupleRef<'_>,
         modified: &HashMap<usize, DataType>,
         schema: &Schema,
-    ) -> TupleResult<(Vec<DataType>, Vec<(u8, DataType)>, Vec<DataType>)> {
+    ) -> TupleResult<(Vec<DataType>, Vec<(u16, DataType)>, Vec<DataType>)> {
         let num_values = schema.num_values();
         let mut new_values = Vec::with_capacity(num_values);
         let mut changed_values = Vec::with_capacity(modified.len());
@@ -1102,7 +1155,7 @@ impl Tuple {
             all_old_values.push(current_val.clone());
 
             if let Some(new_val) = modified.get(&i) {
-                changed_values.push((i as u8, current_val));
+                changed_values.push((i as u16, current_val));
                 new_values.push(new_val.clone());
             } else {
                 new_values.push(current_val);
@@ -1118,7 +1171,7 @@ impl Tuple {
     fn calculate_new_tuple_size(
         keys: &[DataType],
         new_values: &[DataType],
-        changed_values: &[(u8, DataType)],
+        changed_values: &[(u16, DataType)],
         existing_deltas_size: usize,
         bitmap_size: usize,
     ) -> usize {
@@ -1147,12 +1200,12 @@ impl Tuple {
         // New delta
         size = DeltaHeader::aligned_offset(size);
         size += DeltaHeader::SIZE;
-        size += 1; // num_changes byte
+        size += DELTA_INDEX_SIZE; // num_changes
         size += bitmap_size; // FULL null bitmap for old version
 
         // Delta changes - only store non-null old values
         for (_, old_val) in changed_values {
-            size += 1; // field_idx byte
+            size += DELTA_INDEX_SIZE; // field_idx
             if !old_val.is_null() {
                 size = aligned_offset(size, old_val.align());
                 size += old_val.runtime_size();
@@ -1160,7 +1213,10 @@ impl Tuple {
         }
 
         // Existing deltas
-        size += existing_deltas_size;
+        if existing_deltas_size > 0 {
+            size = DeltaHeader::aligned_offset(size);
+            size += existing_deltas_size;
+        }
 
         size
     }
@@ -1210,7 +1266,7 @@ impl Tuple {
     ///
     /// Delta layout:
     /// ```text
-    /// [DeltaHeader][num_changes: u8][full_null_bitmap][changes...]
+    /// [DeltaHeader][num_changes: u16][full_null_bitmap][changes...]
     /// ```
     ///
     /// The full_null_bitmap contains null status for ALL values in the old version,
@@ -1220,7 +1276,7 @@ impl Tuple {
         offset: usize,
         version: u8,
         xmin: TransactionId,
-        changed_values: &[(u8, DataType)],
+        changed_values: &[(u16, DataType)],
         all_old_values: &[DataType],
         bitmap_size: usize,
     ) -> TupleResult<usize> {
@@ -1232,8 +1288,7 @@ impl Tuple {
         let mut cursor = delta_header.write_to(buffer, delta_start);
 
         // Write number of changes
-        buffer[cursor] = changed_values.len() as u8;
-        cursor += 1;
+        cursor = write_delta_index(buffer, cursor, changed_values.len() as u16);
 
         // Write FULL null bitmap for ALL values in old version
         let bitmap_start = cursor;
@@ -1252,8 +1307,7 @@ impl Tuple {
 
         // Write changes: [field_idx][value (if not null)]
         for &(idx, ref val) in changed_values {
-            buffer[cursor] = idx;
-            cursor += 1;
+            cursor = write_delta_index(buffer, cursor, idx);
             if !val.is_null() {
                 cursor = val.write_to(buffer, cursor)?;
             }
@@ -1262,11 +1316,11 @@ impl Tuple {
         Ok(cursor)
     }
 
+    /// Marks the tuple as deleted by [xid].
+    ///
+    /// Only a transaction that sees the tuple deletes it, so an older mark belongs to a
+    /// transaction that did not commit and is replaced.
     pub(crate) fn delete(&mut self, xid: TransactionId) -> TupleResult<()> {
-        if self.is_deleted() {
-            return Ok(());
-        }
-
         let buffer = self.data.effective_data_mut();
         let (mut header, _) = TupleHeader::read_from(buffer, 0);
         header.xmax = xid as i64;
@@ -1278,74 +1332,41 @@ impl Tuple {
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-    /// A delta is no longer needed if its xmin is less than the oldest active
-    /// transaction ID, meaning no transaction can ever need to see that version.
+    /// Every snapshot from the oldest active transaction on reads the newest version that was
+    /// committed before that transaction, or a newer one. The deltas behind that version are
+    /// not needed. Versions of aborted transactions are visible to nobody and do not count.
     ///
     /// Returns the number of bytes freed.
     pub(crate) fn vaccum_with(
         &mut self,
         oldest_active_xid: TransactionId,
         schema: &Schema,
+        is_aborted: impl Fn(TransactionId) -> bool,
     ) -> TupleResult<usize> {
         let reader = TupleReader::from_schema(schema);
-        let layout = reader.parse_last_version(self.data.effective_data())?;
+        let data = self.data.effective_data();
+        let layout = reader.parse_last_version(data)?;
 
         // No deltas to vacuum
-        if layout.delta_start() >= self.data.len() {
+        if layout.delta_start() >= data.len() {
             return Ok(0);
         }
 
-        let num_values = schema.num_values();
-        let bitmap_size = null_bitmap_size(num_values);
-        let mut cursor = layout.delta_start();
-        let mut last_needed_end = layout.delta_start();
-
-        while cursor < self.data.len() {
-            let (delta_header, header_end) =
-                DeltaHeader::read_from(self.data.effective_data(), cursor);
-
-            // If this delta's xmin >= oldest_active_xid, some transaction might still need it
-            if delta_header.xmin() >= oldest_active_xid {
-                let num_changes = self.data.effective_data()[header_end] as usize;
-
-                // Skip: num_changes byte + full bitmap
-                let delta_bitmap_start = header_end + 1;
-                let delta_bitmap = &self.data.effective_data()
-                    [delta_bitmap_start..delta_bitmap_start + bitmap_size];
-                let mut skip_cursor = delta_bitmap_start + bitmap_size;
-
-                // Skip each change entry
-                for _ in 0..num_changes {
-                    let field_idx = self.data.effective_data()[skip_cursor] as usize;
-                    skip_cursor += 1;
-
-                    // Check if this field is NULL using the delta's bitmap
-                    let is_null = TupleReader::check_null(delta_bitmap, field_idx);
-
-                    if !is_null {
-                        let dtype = schema
-                            .value(field_idx)
-                            .ok_or(TupleError::ValueError(field_idx))?
-                            .datatype();
-
-                        let (_, new_cursor) =
-                            dtype.deserialize(self.data.effective_data(), skip_cursor)?;
-                        skip_cursor = new_cursor;
-                    }
-                    // If null, no data was written, so don't advance cursor
-                }
+        let visible_to_all =
+            |xmin: TransactionId| xmin < oldest_active_xid && !is_aborted(xmin);
 
-                last_needed_end = skip_cursor;
-                cursor = skip_cursor;
-            } else {
-                // This delta and all subsequent ones are too old - stop here
-                break;
-            }
+        let mut cursor = layout.data_end;
+        let mut version_xmin = layout.version_xmin();
+
+        while !visible_to_all(version_xmin) && DeltaHeader::aligned_offset(cursor) < data.len() {
+            let (delta_header, delta_end) = reader.skip_delta(data, cursor)?;
+            version_xmin = delta_header.xmin();
+            cursor = delta_end;
         }
 
-        let freed = self.data.len() - last_needed_end;
+        let freed = data.len().saturating_sub(cursor);
         if freed > 0 {
-            self.data.realloc(last_needed_end)?;
+            self.data.realloc(cursor)?;
         }
 
         Ok(freed)
@@ -1374,29 +1395,12 @@ impl Tuple {
             return Ok(1);
         }
 
-        let num_values = schema.num_values();
-        let bitmap_size = null_bitmap_size(num_values);
+        let data = self.data.effective_data();
         let mut cursor = layout.delta_start();
         let mut count = 1;
 
-        while cursor < self.data.len() {
-            let (_, header_end) = DeltaHeader::read_from(self.data.effective_data(), cursor);
-            let num_changes = self.data.effective_data()[header_end] as usize;
-            cursor = header_end + 1 + bitmap_size;
-
-            for _ in 0..num_changes {
-                let field_idx = self.data.effective_data()[cursor] as usize;
-                cursor += 1;
-
-                let dtype = schema
-                    .value(field_idx)
-                    .ok_or(TupleError::ValueError(field_idx))?
-                    .datatype();
-
-                let (_, new_cursor) = dtype.deserialize(self.data.effective_data(), cursor)?;
-                cursor = new_cursor;
-            }
-
+        while DeltaHeader::aligned_offset(cursor) < data.len() {
+            (_, cursor) = reader.skip_delta(data, cursor)?;
             count += 1;
         }
 
@@ -1417,14 +1421,14 @@ impl Tuple {
 
     /// Writes the contents of the tuple to a buffer.
     pub(crate) fn write_to(&self, buffer: &mut [u8]) -> SerializationResult<usize> {
-        let len = self.data.full_data().len();
-        buffer[..len].copy_from_slice(self.data.full_data());
+        let len = self.data.effective_data().len();
+        buffer[..len].copy_from_slice(self.data.effective_data());
         Ok(len)
     }
 
     /// Returns the total serialized size of the tuple.
     pub(crate) fn serialized_size(&self) -> usize {
-        self.data.full_data().len()
+        self.data.effective_data().len()
     }
 
     pub(crate) fn display_with<'b>(
@@ -1442,7 +1446,7 @@ impl Tuple {
 
 impl From<&Tuple> for Box<[u8]> {
     fn from(value: &Tuple) -> Self {
-        Box::from(value.full_data())
+        Box::from(value.effective_data())
     }
 }
 pub struct DisplayWith<'a, T> {
diff --git a/crates/axmos-db/src/verif.rs b/crates/axmos-db/src/verif.rs
index 310a42c..67c6fdb 100644
--- a/crates/axmos-db/src/verif.rs
+++ b/crates/axmos-db/src/verif.rs
@@ -264,8 +264,11 @@ impl VTuple {
     pub fn delete(&mut self, xid: u64) -> R<()> {
         self.tuple.delete(xid).map_err(es)
     }
-    pub fn vacuum(&mut self, horizon: u64) -> R<usize> {
-        self.tuple.vaccum_with(horizon, &self.schema).map_err(es)
+    /// `aborted` lists the transactions known to have rolled back.
+    pub fn vacuum(&mut self, horizon: u64, aborted: &[u64]) -> R<usize> {
+        self.tuple
+            .vaccum_with(horizon, &self.schema, |xid| aborted.contains(&xid))
+            .map_err(es)
     }
     pub fn bytes(&self) -> Vec<u8> {
         self.tuple.effective_data().to_vec()
-- 
2.43.0


From f9c0f7a26ab883fb5f1031d1034e3266f406025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 13/30] fix: page cache keeps its capacity, looks at every
 frame before giving up and never drops a held one

---
 crates/axmos-db/src/io/cache.rs | 40 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index a71fb24..dbbef9f 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -18,17 +18,17 @@ pub(crate) struct MemoryStats {
 impl MemoryStats {
     fn cache_hit(&self) {
         let current = self.cache_hits.get();
-        self.cache_hits.set(current + 1);
+        self.cache_hits.set(current.wrapping_add(1));
     }
 
     fn cache_miss(&self) {
         let current = self.cache_misses.get();
-        self.cache_misses.set(current + 1);
+        self.cache_misses.set(current.wrapping_add(1));
     }
 
     fn eviction(&self) {
         let current = self.frames_evicted.get();
-        self.frames_evicted.set(current + 1);
+        self.frames_evicted.set(current.wrapping_add(1));
     }
 }
 impl Display for MemoryStats {
@@ -115,7 +115,11 @@ impl PageCache {
 
     /// Removes a frame from the cache for deallocation.
     pub(crate) fn remove(&mut self, id: PageId) -> Option<MemFrame> {
-        self.frames.swap_remove(&id).filter(|frame| frame.is_free())
+        // A frame somebody still holds stays where it is.
+        if !self.frames.get(&id)?.is_free() {
+            return None;
+        }
+        self.frames.swap_remove(&id)
     }
 
     pub fn evict(&mut self) -> io::Result<Option<MemFrame>> {
@@ -123,28 +127,27 @@ impl PageCache {
             return Ok(None);
         };
 
-        let mut found_victim = None;
-        // Attempt to iterate over all the frames.
-        while self.cursor <= self.frames.len() && found_victim.is_none() {
-            if let Some((pid, frame)) = self.frames.get_index(self.cursor) {
-                if frame.is_free() {
-                    self.stats.eviction();
+        // Go once around all the frames, starting where the last search stopped.
+        for _ in 0..self.frames.len() {
+            if self.cursor >= self.frames.len() {
+                self.cursor = 0;
+            }
 
-                    let (_, victim) = self.frames.swap_remove_index(self.cursor).unwrap();
+            let evictable = self
+                .frames
+                .get_index(self.cursor)
+                .is_some_and(|(_, frame)| frame.is_free());
 
-                    found_victim = Some(victim);
-                    break;
-                }
+            if evictable {
+                self.stats.eviction();
+                let (_, victim) = self.frames.swap_remove_index(self.cursor).unwrap();
+                return Ok(Some(victim));
             };
 
             // Not evictable.
             self.cursor += 1;
         }
 
-        if found_victim.is_some() {
-            return Ok(found_victim);
-        };
-
         Err(IoError::new(
             ErrorKind::OutOfMemory,
             "Buffer pool got out of memory for new frames.",
@@ -180,7 +183,6 @@ impl PageCache {
         }
 
         self.cursor = 0;
-        self.capacity = 0;
         remaining_frames
     }
 }
-- 
2.43.0


From 6157e7b5ce86f2754bc29de73983e24b085d4f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:54 +0000
Subject: [PATCH 14/30] fix: freeing or reusing a page never loses a held frame
 and leaves the file to eviction and checkpoint

---
 crates/axmos-db/src/io/pager.rs | 57 +++++++++------------------------
 1 file changed, 15 insertions(+), 42 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index d797bad..e067e49 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -10,7 +10,10 @@ use crate::{
     make_shared,
     multithreading::frames::{AsReadLatch, AsWriteLatch, Frame, MemFrame},
     storage::{
-        core::{buffer::MemBlock, traits::Buffer},
+        core::{
+            buffer::MemBlock,
+            traits::{Allocatable, Buffer},
+        },
         page::{OverflowPage, PageZero, PageZeroHeader},
     },
     tree::{
@@ -384,15 +387,8 @@ impl Pager {
                 self.set_last_free_page(None);
             }
 
-            // We need to make sure that we hold the only reference to the page in order to be able to dealloc or reinit the page. Take a look at [MemFrame::dealloc] if you want to figure out why.
-            // To do so, the page must not be on the cache.
-            // The easiest way to do it is to simply load the page into the cache first (in case it was on disk, the [Pager::ensure_cached] method takes care of that, and later remove it)
-            self.ensure_cached::<P>(page_id)?; // Load the page to the cache.
-            let page = self.cache.remove(page_id).ok_or(IoError::new(
-                ErrorKind::NotFound,
-                "Page not found on the cache",
-            ))?;
-            page.reinit_as::<P::Header>()
+            // A reader that came from a stale link may still hold the freed frame. It keeps the old one, the page itself starts over with a new frame.
+            MemFrame::from(Frame::new(P::alloc(page_id, self.page_size())))
         } else {
             let id = self.get_next_page();
             let page = P::alloc(id, self.page_size() as usize);
@@ -463,17 +459,6 @@ impl Pager {
         Ok(self.cache.get(&id).unwrap())
     }
 
-    /// Loads a page into the cache without pinning it.
-    /// See [Pager::read_page]
-    fn ensure_cached<P>(&mut self, id: PageId) -> io::Result<()>
-    where
-        P: Buffer,
-        MemFrame: From<Frame<P>> + From<Frame<MemBlock<P::Header>>>,
-    {
-        let _ = self.read_page::<P>(id)?;
-        Ok(())
-    }
-
     /// Deallocates an existing page.
     pub(crate) fn dealloc_page<P>(&mut self, id: PageId) -> io::Result<()>
     where
@@ -488,37 +473,25 @@ impl Pager {
             ));
         };
 
-        let first_free_page = self.first_free_page();
-
-        // Set the first free page in the header
-        if first_free_page.is_none() {
-            self.set_first_free_page(Some(id));
-        };
+        // The page starts over as an unlinked overflow page. Whoever still holds the old frame keeps it.
+        // It reaches the disk as any other dirty page does, on eviction or at the next checkpoint.
+        let freed = MemFrame::from(Frame::new(OverflowPage::alloc(id, self.page_size())));
+        freed.mark_dirty();
+        self.cache_frame(freed)?;
 
         if let Some(last_free_id) = self.last_free_page() {
-            // Read the free page and set the next page with the id of the page we have just deallocated.
+            // Read the last free page and set the next page with the id of the page we have just deallocated.
             self.with_page_mut::<OverflowPage, _, _>(last_free_id, |overflow| {
                 overflow.metadata_mut().next = Some(id);
             })?;
+        } else {
+            // The list was empty.
+            self.set_first_free_page(Some(id));
         };
 
         // The new last free page must be the one we have deallocated.
         self.set_last_free_page(Some(id));
 
-        self.ensure_cached::<P>(id)?;
-
-        // We need to ensure that the frame is free
-        if let Some(mem_page) = self.cache.remove(id) {
-            let page_size = self.page_size();
-
-            // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
-            let deallocated_page = mem_page.dealloc();
-
-            // Here the write needs to write as an overflow page , regardless of the value of [P]
-            deallocated_page.with_bytes(|bytes| self.write_block(id, bytes, page_size))?;
-            self.cache_frame(deallocated_page)?;
-        };
-
         Ok(())
     }
 
-- 
2.43.0


From 56c83670bb1a1ddfff85d5bcb9b66cdf439d6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:51 +0000
Subject: [PATCH 15/30] fix: a transaction begins and commits in one step, logs
 an abort as an abort and stays finished once it has finished

---
 crates/axmos-db/src/io/pager.rs               |   4 +
 crates/axmos-db/src/lib.rs                    |  36 ++--
 .../src/multithreading/coordinator.rs         | 161 ++++++++++++------
 crates/axmos-db/src/runtime/context.rs        |  47 ++++-
 crates/axmos-db/src/storage/page.rs           |   8 +
 crates/axmos-db/src/tcp/session.rs            |  15 +-
 6 files changed, 196 insertions(+), 75 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index e067e49..9f8d53b 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -173,6 +173,10 @@ impl Pager {
         self.header_unchecked_mut().mark_transaction_aborted(txid);
     }
 
+    pub(crate) fn clear_transaction_aborted(&mut self, txid: TransactionId) {
+        self.header_unchecked_mut().clear_transaction_aborted(txid);
+    }
+
     pub(crate) fn get_aborted_transactions(&self) -> Vec<TransactionId> {
         self.header_unchecked().get_aborted_transactions()
     }
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index da2920b..38d6c06 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -348,11 +348,15 @@ impl Database {
         let child = tx_ctx.create_child()?;
         let result = self.task_runner.run_with_result(move |_ctx| {
             let runner = QueryRunner::new(child, logger.clone());
-            let result_guard = runner.prepare_and_run(&sql).map_err(box_err)?;
+            let result_guard = match runner.prepare_and_run(&sql) {
+                Ok(done) => done,
+                Err(e) => {
+                    let _ = tx_ctx.abort_logged(&logger);
+                    return Err(box_err(e));
+                }
+            };
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
 
             Ok(result_guard)
         })?;
@@ -373,11 +377,15 @@ impl Database {
         let child = tx_ctx.create_child()?;
         let result = self.task_runner.run_with_result(move |_ctx| {
             let runner = QueryRunner::new(child, logger.clone());
-            let result = runner.prepare_and_explain(&sql).map_err(box_err)?;
+            let result = match runner.prepare_and_explain(&sql) {
+                Ok(done) => done,
+                Err(e) => {
+                    let _ = tx_ctx.abort_logged(&logger);
+                    return Err(box_err(e));
+                }
+            };
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
 
             Ok(result)
         })?;
@@ -400,11 +408,15 @@ impl Database {
             // Use BatchQueryRunner for atomic execution
             let runner = MultiQueryRunner::new(child, logger.clone());
 
-            let results = runner.execute_all(&statements).map_err(box_err)?;
+            let results = match runner.execute_all(&statements) {
+                Ok(done) => done,
+                Err(e) => {
+                    let _ = tx_ctx.abort_logged(&logger);
+                    return Err(box_err(e));
+                }
+            };
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
 
             Ok(results)
         })?;
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 017347a..5fd3e3f 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -366,46 +366,58 @@ impl TransactionCoordinator {
 
     /// Create a snapshot of the database state for a given transaction id.
     pub fn snapshot(&self, txid: TransactionId) -> TransactionResult<Snapshot> {
-        // Collect active transaction ids
-        let active: HashSet<TransactionId> = self.transaction_set(TransactionState::Active);
+        let txs = self.transactions.read();
+        Ok(self.snapshot_of(&txs, txid))
+    }
 
-        // Collect tracked aborted transaction ids
-        let aborted: HashSet<TransactionId> = self.transaction_set(TransactionState::Aborted);
+    /// Builds a snapshot while the transaction table is held by the caller, so that the sets of
+    /// active and aborted transactions and the last committed one belong to the same instant.
+    fn snapshot_of(
+        &self,
+        txs: &HashMap<TransactionId, TransactionMetadata>,
+        txid: TransactionId,
+    ) -> Snapshot {
+        let in_state = |wanted: &[TransactionState]| -> HashSet<TransactionId> {
+            txs.iter()
+                .filter(|(_, entry)| wanted.contains(&entry.state()))
+                .map(|(id, _)| *id)
+                .collect()
+        };
+
+        let active = in_state(&[TransactionState::Active, TransactionState::Committing]);
+        let aborted = in_state(&[TransactionState::Aborted]);
 
         // xmin is the smallest active transaction ID (or our ID if none active)
         let xmin = active.iter().min().copied().unwrap_or(txid);
 
         // xmax is the last committed transaction from PageZero
-        let xmax = {
-            let last = self.get_last_committed();
-            if last == 0 { None } else { Some(last) }
-        };
+        let xmax = Some(self.get_last_committed());
 
-        Ok(Snapshot::new(txid, xmin, xmax, active, aborted))
+        Snapshot::new(txid, xmin, xmax, active, aborted)
     }
 
     /// Begin a new transaction.
     /// Returns a [TransactionHandle] to the thread that requested the begin operation.
     pub fn begin(&self) -> TransactionResult<TransactionHandle> {
-        // Atomically get and increment the transaction ID in PageZero
+        // The identifier, the snapshot and the entry in the table belong to one instant: no other
+        // transaction may begin or finish in between.
+        let mut txs = self.transactions.write();
+
         let txid = {
             let mut pager = self.pager.write();
             let current = pager.get_last_created_transaction();
             pager.set_last_created_transaction(current + 1);
+            // Until it commits, the file says it did not: that is what counts if it never gets there.
+            pager.mark_transaction_aborted(current);
             current
         };
 
-        // Create snapshot
-        let snapshot = self.snapshot(txid)?;
-
+        let snapshot = self.snapshot_of(&txs, txid);
         let start_ts = self.commit_counter.load(Ordering::SeqCst);
-
-        // Insert new transaction entry
-        {
-            let mut txs = self.transactions.write();
-            let entry = TransactionMetadata::new(txid, snapshot.clone(), start_ts);
-            txs.insert(txid, entry);
-        }
+        txs.insert(
+            txid,
+            TransactionMetadata::new(txid, snapshot.clone(), start_ts),
+        );
 
         Ok(TransactionHandle {
             id: txid,
@@ -414,45 +426,68 @@ impl TransactionCoordinator {
         })
     }
 
-    /// Validate and commit a transaction
+    /// Validate a transaction that wants to commit.
     ///
     /// This performs optimistic concurrency control validation:
-    /// Checks that no tuple in write set was modified by another committed transaction
-    /// If validation passes, marks the transaction as committed
-    pub fn commit(&self, txid: TransactionId) -> TransactionResult<()> {
-        // Perform validation
-        match self.validate_write_set(txid)? {
-            ValidationResult::Allowed => {
-                self.set_transaction_state(txid, TransactionState::Committed)?;
-
-                // Update last_committed in PageZero if this is the highest committed txid
-                {
-                    let mut pager = self.pager.write();
-                    let current_last = pager.get_last_committed_transaction();
-                    if txid > current_last {
-                        pager.set_last_committed_transaction(txid);
-                    }
-                }
-
-                Ok(())
-            }
+    /// Checks that no tuple in write set was modified by another committed transaction.
+    /// A transaction that does not pass is aborted.
+    pub fn prepare(&self, txid: TransactionId) -> TransactionResult<()> {
+        let mut txs = self.transactions.write();
+        self.prepare_in(&mut txs, txid)
+    }
 
+    fn prepare_in(
+        &self,
+        txs: &mut HashMap<TransactionId, TransactionMetadata>,
+        txid: TransactionId,
+    ) -> TransactionResult<()> {
+        match self.validate_write_set(txs, txid)? {
+            ValidationResult::Allowed => Ok(()),
             ValidationResult::Conflict(id) => {
-                self.set_transaction_state(txid, TransactionState::Aborted)?;
+                Self::set_transaction_state(txs, txid, TransactionState::Aborted)?;
+                self.pager.write().mark_transaction_aborted(txid);
                 Err(TransactionError::WriteWriteConflict(txid, id))
             }
         }
     }
 
+    /// Commit a transaction, validating it first if that has not been done yet.
+    pub fn commit(&self, txid: TransactionId) -> TransactionResult<()> {
+        let mut txs = self.transactions.write();
+
+        let state = txs.get(&txid).map(|entry| entry.state());
+        if state != Some(TransactionState::Committing) {
+            self.prepare_in(&mut txs, txid)?;
+        }
+        Self::set_transaction_state(&mut txs, txid, TransactionState::Committed)?;
+
+        // Update last_committed in PageZero if this is the highest committed txid
+        let mut pager = self.pager.write();
+        pager.clear_transaction_aborted(txid);
+        let current_last = pager.get_last_committed_transaction();
+        if txid > current_last {
+            pager.set_last_committed_transaction(txid);
+        }
+
+        Ok(())
+    }
+
+    /// Current state of a transaction, if it is still tracked. Transactions that are not tracked
+    /// any more finished long ago (the aborted ones stay tracked).
+    pub fn transaction_state(&self, txid: TransactionId) -> Option<TransactionState> {
+        self.transactions.read().get(&txid).map(|e| e.state())
+    }
+
     /// Abort a transaction
     pub fn abort(&self, txid: TransactionId) -> TransactionResult<()> {
-        {
-            let mut txs = self.transactions.write();
-
-            let entry = txs.get_mut(&txid).ok_or(TransactionError::NotFound(txid))?;
+        let mut txs = self.transactions.write();
+        let entry = txs.get_mut(&txid).ok_or(TransactionError::NotFound(txid))?;
 
-            entry.state = TransactionState::Aborted;
+        // What committed stays committed.
+        if entry.state == TransactionState::Committed {
+            return Err(TransactionError::InvalidTransactionState(entry.state));
         }
+        entry.state = TransactionState::Aborted;
 
         // Persist aborted state to page zero for crash recovery
         self.pager.write().mark_transaction_aborted(txid);
@@ -499,11 +534,10 @@ impl TransactionCoordinator {
     }
 
     fn set_transaction_state(
-        &self,
+        txs: &mut HashMap<TransactionId, TransactionMetadata>,
         txid: TransactionId,
         state: TransactionState,
     ) -> TransactionResult<()> {
-        let mut txs = self.transactions.write();
         let entry = txs.get_mut(&txid).ok_or(TransactionError::NotFound(txid))?;
 
         let valid_transition = matches!(
@@ -526,10 +560,13 @@ impl TransactionCoordinator {
 
     /// Validate write set for conflicts
     /// Returns [CommitResult::Allowed] if no conflicts detected
-    fn validate_write_set(&self, txid: TransactionId) -> TransactionResult<ValidationResult> {
-        self.set_transaction_state(txid, TransactionState::Committing)?;
+    fn validate_write_set(
+        &self,
+        txs: &mut HashMap<TransactionId, TransactionMetadata>,
+        txid: TransactionId,
+    ) -> TransactionResult<ValidationResult> {
+        Self::set_transaction_state(txs, txid, TransactionState::Committing)?;
 
-        let txs = self.transactions.read();
         let entry = txs.get(&txid).ok_or(TransactionError::NotFound(txid))?;
 
         let start_ts = entry.start_ts();
@@ -599,6 +636,12 @@ impl TransactionCoordinator {
             }
         }
 
+        // Persist the aborted state, as an explicit abort does
+        let mut pager = self.pager.write();
+        for id in &aborted {
+            pager.mark_transaction_aborted(*id);
+        }
+
         aborted
     }
 
@@ -671,6 +714,11 @@ impl CommitHandle {
         Self { coordinator }
     }
 
+    /// Validate this transaction before its commit is logged
+    pub fn prepare(&self, id: TransactionId) -> TransactionResult<()> {
+        self.coordinator.prepare(id)
+    }
+
     /// Commit this transaction, consuming itself
     pub fn commit(self, id: TransactionId) -> TransactionResult<()> {
         self.coordinator.commit(id)
@@ -695,6 +743,17 @@ impl TransactionHandle {
         self.commit_handle.is_some()
     }
 
+    pub(crate) fn coordinator(&self) -> Option<&TransactionCoordinator> {
+        self.commit_handle.as_ref().map(|h| &h.coordinator)
+    }
+
+    pub fn prepare(&mut self) -> TransactionResult<()> {
+        match self.commit_handle.as_ref() {
+            Some(handle) => handle.prepare(self.id),
+            None => Err(TransactionError::TransactionNotStarted),
+        }
+    }
+
     pub fn commit(&mut self) -> TransactionResult<()> {
         if let Some(handle) = self.commit_handle.take() {
             handle.commit(self.id())?;
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index c557820..2e3697f 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -4,10 +4,10 @@ use parking_lot::RwLock;
 use super::RuntimeResult;
 use crate::{
     io::{
-        logger::{Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
+        logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
         pager::{BtreeBuilder, SharedPager},
     },
-    multithreading::coordinator::{Snapshot, TransactionHandle},
+    multithreading::coordinator::{Snapshot, TransactionHandle, TransactionState},
     schema::catalog::SharedCatalog,
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor},
@@ -125,7 +125,7 @@ impl TransactionLogger {
     }
 
     pub(crate) fn log_abort(&self) -> RuntimeResult<()> {
-        self.log_operation(Commit)?;
+        self.log_operation(Abort)?;
         Ok(())
     }
 
@@ -283,14 +283,51 @@ impl TransactionContext {
             .with_pager(self.pager().clone())
     }
 
-    /// Commits the transaction: log commit, commit handle, end.
+    /// Commits the transaction: validation, log commit, commit handle, end.
+    pub(crate) fn commit_logged(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        // The log only says that the transaction committed if it is really going to.
+        self.handle.write().prepare()?;
+        logger.log_commit()?;
+        self.commit_transaction()?;
+        logger.log_end()?;
+        Ok(())
+    }
+
+    /// Aborts the transaction: log abort, abort handle, end.
+    /// A transaction that has already finished stays as it is.
+    pub(crate) fn abort_logged(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        if self.is_finished() {
+            return Ok(());
+        }
+        let logged = logger.log_abort();
+        self.abort_transaction()?;
+        logged?;
+        logger.log_end()?;
+        Ok(())
+    }
+
+    /// Whether the transaction has already committed or aborted.
+    pub(crate) fn is_finished(&self) -> bool {
+        let handle = self.handle.read();
+        !handle.can_commit()
+    }
+
+    /// Whether statements may still run in the transaction. It may have been aborted from outside, by VACUUM.
+    pub(crate) fn is_running(&self) -> bool {
+        let handle = self.handle.read();
+        handle.coordinator().is_some_and(|coordinator| {
+            coordinator.transaction_state(handle.id()) == Some(TransactionState::Active)
+        })
+    }
+
+    /// Commits the handle.
     pub(crate) fn commit_transaction(&self) -> RuntimeResult<()> {
         let mut h = self.handle.write();
         h.commit()?;
         Ok(())
     }
 
-    /// Aborts the transaction: log commit, commit handle, end.
+    /// Aborts the handle.
     pub(crate) fn abort_transaction(&self) -> RuntimeResult<()> {
         let mut h = self.handle.write();
         h.abort()?;
diff --git a/crates/axmos-db/src/storage/page.rs b/crates/axmos-db/src/storage/page.rs
index 544012f..dd87f65 100644
--- a/crates/axmos-db/src/storage/page.rs
+++ b/crates/axmos-db/src/storage/page.rs
@@ -142,6 +142,14 @@ impl PageZeroHeader {
         }
     }
 
+    pub(crate) fn clear_transaction_aborted(&mut self, txid: TransactionId) {
+        if txid < MAX_TRACKED_ABORTED_TXS as u64 {
+            let byte_idx = (txid / 8) as usize;
+            let bit_idx = (txid % 8) as u8;
+            self.aborted_txs_bitmap[byte_idx] &= !(1 << bit_idx);
+        }
+    }
+
     pub(crate) fn is_transaction_aborted(&self, txid: TransactionId) -> bool {
         if txid >= MAX_TRACKED_ABORTED_TXS as u64 {
             return false;
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index eab65b6..d826360 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     box_err,
-    multithreading::runner::SharedTaskRunner,
+    multithreading::{coordinator::TransactionError, runner::SharedTaskRunner},
     runtime::{
         QueryError, QueryResult, QueryRunner, QueryRunnerResult, RuntimeError,
         context::{TransactionContext, TransactionLogger},
@@ -28,16 +28,12 @@ impl Session {
     }
 
     pub fn commit_transaction(&mut self) -> QueryRunnerResult<()> {
-        self.logger.log_commit()?;
-        self.ctx.commit_transaction()?;
-        self.logger.log_end()?;
+        self.ctx.commit_logged(&self.logger)?;
         Ok(())
     }
 
     pub fn abort_transaction(&mut self) -> QueryRunnerResult<()> {
-        self.logger.log_abort()?;
-        self.ctx.abort_transaction()?;
-        self.logger.log_end()?;
+        self.ctx.abort_logged(&self.logger)?;
         Ok(())
     }
 
@@ -47,6 +43,11 @@ impl Session {
     }
 
     fn execute_async(&self, sql: String) -> QueryRunnerResult<QueryResult> {
+        // A session is one transaction: nothing runs in it once it has finished.
+        if !self.ctx.is_running() {
+            return Err(RuntimeError::from(TransactionError::TransactionNotStarted).into());
+        }
+
         let logger = self.logger.clone();
         // Build a temporary context for this thread
         // Cloning the handle creates an invalidated copy of itself that can fo everything but committing  or aborting.
-- 
2.43.0


From 54261755117b3ee56ef66768dd8e6f1bec95b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:51 +0000
Subject: [PATCH 16/30] fix: stored statistics are deserialized from aligned
 memory

---
 crates/axmos-db/src/schema/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/schema/stats.rs b/crates/axmos-db/src/schema/stats.rs
index 0b082eb..bf1334b 100644
--- a/crates/axmos-db/src/schema/stats.rs
+++ b/crates/axmos-db/src/schema/stats.rs
@@ -350,9 +350,9 @@ impl Stats {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
-        let stats = from_bytes::<Stats, RkyvError>(data)?;
+        let stats = from_bytes::<Stats, RkyvError>(&aligned)?;
         Ok(stats)
     }
 }
-- 
2.43.0


From 42bbd0918f142135b51dde384a977be57da10b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:51 +0000
Subject: [PATCH 17/30] fix: statements apply whole or not at all; uniqueness,
 row ids and the catalog follow the fate of transactions

Constraint checks look at every row of a statement before and after it, the
index entries of a row follow it, deletes and rollbacks free their unique
values, ALTER TABLE rewrites the rows it has to, DROP and rolled back CREATE
free their pages once nobody needs them, and concurrent writers of a row or a
relation conflict.
---
 crates/axmos-db/src/io/pager.rs               |   15 +
 crates/axmos-db/src/lib.rs                    |    4 +-
 .../src/multithreading/coordinator.rs         |   83 +-
 crates/axmos-db/src/runtime/context.rs        |   55 +-
 crates/axmos-db/src/runtime/ddl.rs            |  749 ++++++++----
 crates/axmos-db/src/runtime/dml.rs            | 1060 +++++++++--------
 crates/axmos-db/src/runtime/ops/delete.rs     |   14 +-
 crates/axmos-db/src/runtime/ops/index_scan.rs |   49 +-
 crates/axmos-db/src/runtime/ops/insert.rs     |   12 +-
 crates/axmos-db/src/runtime/ops/seq_scan.rs   |   17 +-
 crates/axmos-db/src/runtime/ops/update.rs     |   30 +-
 crates/axmos-db/src/runtime/validator.rs      |  207 +---
 crates/axmos-db/src/schema/base.rs            |   83 +-
 crates/axmos-db/src/schema/catalog.rs         |  689 ++++++++---
 crates/axmos-db/src/storage/tuple.rs          |  101 +-
 crates/axmos-db/src/types/id.rs               |    5 +
 16 files changed, 2058 insertions(+), 1115 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 9f8d53b..ac1164a 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -15,6 +15,7 @@ use crate::{
             traits::{Allocatable, Buffer},
         },
         page::{OverflowPage, PageZero, PageZeroHeader},
+        wal::{OwnedRecord, RECORD_HEADER_SIZE},
     },
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor, TreeReader, TreeWriter},
@@ -162,6 +163,20 @@ impl Pager {
         Ok(lsn)
     }
 
+    /// Checks that a record with the given payload sizes fits in a block of the log.
+    pub(crate) fn check_log_payload(&self, undo: usize, redo: usize) -> io::Result<()> {
+        let payload = OwnedRecord::compute_padded_size(undo + redo);
+        let size = RECORD_HEADER_SIZE + payload;
+        let max = self.wal.max_record_size();
+        if size > max {
+            return Err(IoError::new(
+                ErrorKind::InvalidInput,
+                format!("Record size {size} exceeds maximum block capacity {max}"),
+            ));
+        }
+        Ok(())
+    }
+
     /// Load block zero from disk
     fn load_page_zero(&mut self, block_size: usize) -> io::Result<PageZero> {
         let mut block: MemBlock<PageZeroHeader> = MemBlock::new(block_size);
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 38d6c06..69ef2cb 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -196,6 +196,7 @@ impl Database {
 
         // Create transaction coordinator
         let coordinator = TransactionCoordinator::new(pager.clone());
+        catalog.set_coordinator(coordinator.clone());
 
         // Create task runner
         let task_runner =
@@ -246,6 +247,7 @@ impl Database {
         let coordinator = TransactionCoordinator::new(pager.clone());
         // Load persisted aborted transactions from page zero
         coordinator.load_aborted_transactions();
+        catalog.set_coordinator(coordinator.clone());
 
         // Create task runner
         let task_runner =
@@ -487,7 +489,7 @@ impl Database {
                 )
                 .map_err(box_err)?;
 
-            tx_ctx.commit_transaction().map_err(box_err)?;
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
             Ok(())
         })?;
 
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 5fd3e3f..d90fbd8 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -1,7 +1,7 @@
 //! MVCC Transaction System for AxmosDB
 use crate::{
     io::pager::SharedPager,
-    types::{LogicalId, TransactionId},
+    types::{LogicalId, ObjectId, TransactionId},
 };
 use parking_lot::RwLock;
 use std::{
@@ -290,6 +290,7 @@ impl Clone for TransactionCoordinator {
             pager: self.pager.clone(),
             commit_counter: Arc::clone(&self.commit_counter),
             tuple_commits: Arc::clone(&self.tuple_commits),
+            claims: Arc::clone(&self.claims),
         }
     }
 }
@@ -307,6 +308,8 @@ pub struct TransactionCoordinator {
     commit_counter: Arc<AtomicU64>,
     /// Last commit timestamp per tuple - tracks when each tuple was last modified
     tuple_commits: TupleCommitLog,
+    /// Who took an object for writing last
+    claims: Arc<RwLock<HashMap<LogicalId, TransactionId>>>,
 }
 
 enum ValidationResult {
@@ -321,6 +324,7 @@ impl TransactionCoordinator {
             pager,
             commit_counter: Arc::new(AtomicU64::new(1)),
             tuple_commits: Arc::new(RwLock::new(HashMap::new())),
+            claims: Arc::new(RwLock::new(HashMap::new())),
         };
 
         // Load aborted transactions from PageZero into memory
@@ -533,6 +537,77 @@ impl TransactionCoordinator {
         Ok(())
     }
 
+    /// Takes a row for writing: of the transactions that run at the same time, only one may write it.
+    ///
+    /// Fails if another running transaction has taken the row, or if one that committed after
+    /// this transaction began did. A row stays taken until the transaction finishes.
+    pub fn claim_write(&self, txid: TransactionId, logical_id: LogicalId) -> TransactionResult<()> {
+        let mut txs = self.transactions.write();
+
+        let entry = txs.get(&txid).ok_or(TransactionError::NotFound(txid))?;
+        if entry.state != TransactionState::Active {
+            return Err(TransactionError::InvalidTransactionState(entry.state));
+        }
+
+        let committed_meanwhile = self
+            .tuple_commits
+            .read()
+            .get(&logical_id)
+            .is_some_and(|ts| *ts >= entry.start_ts());
+
+        let mut claims = self.claims.write();
+        let taken = claims
+            .get(&logical_id)
+            .is_some_and(|holder| *holder != txid && Self::is_running(&txs, *holder));
+
+        if committed_meanwhile || taken {
+            return Err(TransactionError::WriteWriteConflict(txid, logical_id));
+        }
+
+        claims.insert(logical_id, txid);
+        if let Some(entry) = txs.get_mut(&txid) {
+            entry.add_to_write_set(logical_id, 0);
+        }
+        Ok(())
+    }
+
+    fn is_running(
+        txs: &HashMap<TransactionId, TransactionMetadata>,
+        txid: TransactionId,
+    ) -> bool {
+        txs.get(&txid).is_some_and(|entry| {
+            matches!(
+                entry.state,
+                TransactionState::Active | TransactionState::Committing
+            )
+        })
+    }
+
+    /// Whether another running transaction has taken an object for writing.
+    pub fn is_claimed_by_other(&self, txid: TransactionId, logical_id: LogicalId) -> bool {
+        let txs = self.transactions.read();
+        let claims = self.claims.read();
+        claims
+            .get(&logical_id)
+            .is_some_and(|holder| *holder != txid && Self::is_running(&txs, *holder))
+    }
+
+    /// Whether another running transaction has taken rows of a table for writing.
+    pub fn has_other_writers(&self, txid: TransactionId, table: ObjectId) -> bool {
+        let txs = self.transactions.read();
+        let claims = self.claims.read();
+        claims.iter().any(|(id, holder)| {
+            id.table() == table && *holder != txid && Self::is_running(&txs, *holder)
+        })
+    }
+
+    /// A snapshot that sees everything that committed, if no transaction is running.
+    pub fn quiescent_snapshot(&self) -> Option<Snapshot> {
+        let txs = self.transactions.read();
+        let running = txs.keys().any(|txid| Self::is_running(&txs, *txid));
+        (!running).then(|| self.snapshot_of(&txs, TransactionId::MAX))
+    }
+
     fn set_transaction_state(
         txs: &mut HashMap<TransactionId, TransactionMetadata>,
         txid: TransactionId,
@@ -656,6 +731,12 @@ impl TransactionCoordinator {
         let min_start_ts = self.get_min_active_start_ts();
         self.cleanup_tuple_commits(min_start_ts);
 
+        let txs = self.transactions.read();
+        self.claims
+            .write()
+            .retain(|_, holder| Self::is_running(&txs, *holder));
+        drop(txs);
+
         removed
     }
 
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 2e3697f..202125e 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -7,13 +7,15 @@ use crate::{
         logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
         pager::{BtreeBuilder, SharedPager},
     },
-    multithreading::coordinator::{Snapshot, TransactionHandle, TransactionState},
+    multithreading::coordinator::{
+        Snapshot, TransactionError, TransactionHandle, TransactionState,
+    },
     schema::catalog::SharedCatalog,
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor},
         bplustree::Btree,
     },
-    types::{ObjectId, PageId, RowId, TransactionId},
+    types::{LogicalId, ObjectId, PageId, RowId, TransactionId},
 };
 use std::sync::Arc;
 
@@ -57,6 +59,41 @@ impl ThreadContext {
         &self.catalog
     }
 
+    /// What became of a transaction, as seen now (not by the snapshot).
+    pub(crate) fn state_of(&self, xid: TransactionId) -> TransactionState {
+        self.catalog.state_of(xid, &self.snapshot)
+    }
+
+    /// Whether the index entries of a row move with it when it is updated. That takes somebody who
+    /// knows what became of the transactions that wrote the entries that are already there.
+    pub(crate) fn moves_index_entries(&self) -> bool {
+        self.catalog.coordinator().is_some()
+    }
+
+    /// Takes a row for writing. See [TransactionCoordinator::claim_write].
+    pub(crate) fn claim_write(&self, table: ObjectId, row_id: RowId) -> RuntimeResult<()> {
+        if let Some(coordinator) = self.catalog.coordinator() {
+            coordinator.claim_write(self.tid, LogicalId::new(table, row_id))?;
+        }
+        Ok(())
+    }
+
+    /// Checks that no other transaction is deleting, or has meanwhile deleted, a visible row.
+    pub(crate) fn check_deleter(
+        &self,
+        table: ObjectId,
+        row_id: RowId,
+        xmax: Option<TransactionId>,
+    ) -> RuntimeResult<()> {
+        match xmax {
+            Some(xid) if self.state_of(xid) != TransactionState::Aborted => {
+                let row = LogicalId::new(table, row_id);
+                Err(TransactionError::WriteWriteConflict(self.tid, row).into())
+            }
+            _ => Ok(()),
+        }
+    }
+
     /// Build a read only btree
     pub(crate) fn build_tree(&self, root: PageId) -> Btree<BtreeReadAccessor> {
         let builder = self.tree_builder();
@@ -140,6 +177,12 @@ impl TransactionLogger {
         Ok(())
     }
 
+    /// Checks that records with payloads of the given sizes can be logged.
+    pub(crate) fn check_payload(&self, undo: usize, redo: usize) -> RuntimeResult<()> {
+        self.pager.read().check_log_payload(undo, redo)?;
+        Ok(())
+    }
+
     fn log_operation<O: Operation>(&self, operation: O) -> RuntimeResult<()> {
         let new_last_lsn =
             self.pager
@@ -290,6 +333,7 @@ impl TransactionContext {
         logger.log_commit()?;
         self.commit_transaction()?;
         logger.log_end()?;
+        self.reclaim_catalog();
         Ok(())
     }
 
@@ -303,9 +347,16 @@ impl TransactionContext {
         self.abort_transaction()?;
         logged?;
         logger.log_end()?;
+        self.reclaim_catalog();
         Ok(())
     }
 
+    /// Frees what the catalog does not need any more. The transaction has finished whether or not
+    /// that works: it is tried again after the next one.
+    fn reclaim_catalog(&self) {
+        let _ = self.catalog.reclaim(&self.tree_builder());
+    }
+
     /// Whether the transaction has already committed or aborted.
     pub(crate) fn is_finished(&self) -> bool {
         let handle = self.handle.read();
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 16db50a..032d1cc 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -9,26 +9,28 @@
 
 use crate::{
     PageId,
+    core::SerializableType,
+    multithreading::coordinator::TransactionState,
     runtime::{
         RuntimeError, RuntimeResult,
         context::{ThreadContext, TransactionLogger},
-        eval::eval_literal_expr,
+        dml::IndexTarget,
+        eval::ExpressionEvaluator,
+        validator::{ConstraintValidator, ValidationError},
     },
     schema::{
         DatabaseItem,
         base::{
             Column, ForeignKeyInfo, Relation, Schema, SchemaError, SchemaResult, TableConstraint,
         },
-        catalog::CatalogError,
+        catalog::{CatalogError, RelationChange},
     },
     sql::binder::bounds::*,
     storage::{
         page::BtreePage,
-        tuple::{Row, TupleBuilder},
-    },
-    types::{
-        Blob, DataType, DataTypeKind, ObjectId, SerializationError, SerializationResult, UInt64,
+        tuple::{Row, Tuple, TupleBuilder},
     },
+    types::{Blob, DataType, DataTypeKind, ObjectId, SerializationError, SerializationResult},
 };
 
 use rkyv::{
@@ -36,7 +38,10 @@ use rkyv::{
     util::AlignedVec,
 };
 
-use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::{
+    collections::HashSet,
+    fmt::{Display, Formatter, Result as FmtResult},
+};
 
 #[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
 pub(crate) enum DdlInstruction {
@@ -474,6 +479,13 @@ fn index_name(col_names: &[String], table_name: &str) -> String {
     format!("{}_{}_unique_idx", table_name, col_names.join("_"))
 }
 
+/// What an ALTER TABLE does to the indexes of the table.
+#[derive(Default)]
+struct TableChanges {
+    new_indexes: Vec<ObjectId>,
+    old_indexes: Vec<ObjectId>,
+}
+
 pub struct DdlExecutor {
     ctx: ThreadContext,
     logger: TransactionLogger,
@@ -498,7 +510,11 @@ impl DdlExecutor {
     pub fn execute(&mut self, stmt: &BoundStatement) -> RuntimeResult<DdlResult> {
         match stmt {
             BoundStatement::CreateTable(create) => {
-                let instr = CreateTableInstr::from(create);
+                let mut instr = CreateTableInstr::from(create);
+                for (column, definition) in instr.columns.iter_mut().zip(&create.columns) {
+                    column.default =
+                        Self::default_bytes(definition.default.as_ref(), definition.data_type)?;
+                }
                 self.execute_create_table(&instr)
             }
             BoundStatement::CreateIndex(create) => {
@@ -555,7 +571,9 @@ impl DdlExecutor {
     ) -> RuntimeResult<AlterActionInstr> {
         match action {
             BoundAlterAction::AddColumn(col_def) => {
-                let column = Column::from(col_def);
+                let mut column = Column::from(col_def);
+                column.default =
+                    Self::default_bytes(col_def.default.as_ref(), col_def.data_type)?;
                 Ok(AlterActionInstr::AddColumn { column })
             }
             BoundAlterAction::DropColumn(col_idx) => {
@@ -578,7 +596,7 @@ impl DdlExecutor {
                 let action = match action_type {
                     BoundAlterColumnAction::SetDefault(expr) => {
                         let new_default =
-                            eval_literal_expr(expr).and_then(|dt| dt.serialize().ok());
+                            Self::default_bytes(Some(expr), column.datatype())?;
                         AlterColumnActionInstr::SetDefault {
                             old_default: column.default.clone(),
                             new_default,
@@ -613,6 +631,58 @@ impl DdlExecutor {
         }
     }
 
+    /// Serializes the default of a column, as a value of the type of the column.
+    fn default_bytes(
+        expr: Option<&BoundExpression>,
+        kind: DataTypeKind,
+    ) -> RuntimeResult<Option<Box<[u8]>>> {
+        let Some(expr) = expr else {
+            return Ok(None);
+        };
+        let (row, schema) = (Row::new_empty(), Schema::new_empty());
+        let value = ExpressionEvaluator::new(&row, &schema).evaluate_as_single_value(expr)?;
+        if value.is_null() {
+            return Ok(None);
+        }
+        Ok(Some(value.try_cast(kind)?.serialize()?))
+    }
+
+    /// Checks that a table with the given columns and constraints can exist.
+    fn validate_definition(
+        columns: &[Column],
+        constraints: &[TableConstraint],
+    ) -> RuntimeResult<()> {
+        let mut names = HashSet::new();
+        for column in columns {
+            if !names.insert(column.name()) {
+                return Err(RuntimeError::AlreadyExists(DatabaseItem::Column(
+                    column.name().to_string(),
+                    String::new(),
+                )));
+            }
+        }
+
+        let primary_keys = constraints
+            .iter()
+            .filter(|constraint| matches!(constraint, TableConstraint::PrimaryKey(_)))
+            .count();
+        if primary_keys > 1 {
+            return Err(RuntimeError::Schema(SchemaError::DuplicatePrimaryKey));
+        }
+        Ok(())
+    }
+
+    fn allocate_root(&self) -> RuntimeResult<PageId> {
+        Ok(self.ctx.pager().write().allocate_page::<BtreePage>()?)
+    }
+
+    /// Frees trees that the catalog does not know of.
+    fn dealloc_roots(&self, roots: &[PageId]) {
+        for root in roots {
+            let _ = self.ctx.build_tree_mut(*root).dealloc();
+        }
+    }
+
     fn execute_create_table(&mut self, instr: &CreateTableInstr) -> RuntimeResult<DdlResult> {
         if self.relation_exists(&instr.table_name) {
             if instr.if_not_exists {
@@ -626,26 +696,20 @@ impl DdlExecutor {
         let mut columns: Vec<Column> = Vec::with_capacity(instr.columns.len() + 1);
         columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
         columns.extend(instr.columns.iter().cloned());
+        Self::validate_definition(&columns, &instr.constraints)?;
 
         let object_id = self.ctx.catalog().get_next_object_id();
-        let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
-
-        let relation = Relation::table(object_id, &instr.table_name, root_page, columns);
-
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        self.ctx
-            .catalog()
-            .store_relation(relation, &tree_builder, snapshot.xid())?;
-
-        let mut relation = self
-            .ctx
-            .catalog()
-            .get_relation(object_id, &tree_builder, &snapshot)?;
-
-        for constraint in &instr.constraints {
-            self.add_constraint(&mut relation, constraint)?;
+        let root = self.allocate_root()?;
+        let mut relation = Relation::table(object_id, &instr.table_name, root, columns);
+        let mut indexes = Vec::new();
+
+        let result = self
+            .add_constraints(&mut relation, &instr.constraints, &mut indexes)
+            .and_then(|_| self.store_relation(relation));
+        if let Err(err) = result {
+            self.discard_indexes(indexes)?;
+            self.dealloc_roots(&[root]);
+            return Err(err);
         }
 
         let redo_bytes = instr.to_bytes()?;
@@ -659,6 +723,47 @@ impl DdlExecutor {
         })
     }
 
+    fn store_relation(&self, relation: Relation) -> RuntimeResult<()> {
+        let tree_builder = self.ctx.tree_builder();
+        self.ctx
+            .catalog()
+            .store_relation(relation, &tree_builder, self.ctx.tid())?;
+        Ok(())
+    }
+
+    fn remove_relation(&self, relation: Relation) -> RuntimeResult<()> {
+        let tree_builder = self.ctx.tree_builder();
+        self.ctx
+            .catalog()
+            .remove_relation(relation, &tree_builder, self.ctx.snapshot(), true)?;
+        Ok(())
+    }
+
+    /// Takes back indexes that the statement has created.
+    fn discard_indexes(&self, indexes: Vec<ObjectId>) -> RuntimeResult<()> {
+        for id in indexes {
+            let tree_builder = self.ctx.tree_builder();
+            let index =
+                self.ctx
+                    .catalog()
+                    .get_relation(id, &tree_builder, self.ctx.snapshot())?;
+            self.remove_relation(index)?;
+        }
+        Ok(())
+    }
+
+    fn add_constraints(
+        &self,
+        relation: &mut Relation,
+        constraints: &[TableConstraint],
+        indexes: &mut Vec<ObjectId>,
+    ) -> RuntimeResult<()> {
+        for constraint in constraints {
+            self.add_constraint(relation, constraint, indexes)?;
+        }
+        Ok(())
+    }
+
     fn execute_drop_table(&mut self, instr: &DropTableInstr) -> RuntimeResult<DdlResult> {
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
@@ -685,6 +790,9 @@ impl DdlExecutor {
 
         let id = relation.object_id();
 
+        self.ctx
+            .catalog()
+            .claim_relation(id, &tree_builder, &snapshot)?;
         self.ctx
             .catalog()
             .remove_relation(relation, &tree_builder, &snapshot, instr.cascade)?;
@@ -713,10 +821,33 @@ impl DdlExecutor {
             ));
         }
 
-        let index_id =
-            self.create_unique_index(instr.table_id, &instr.index_name, &instr.columns)?;
+        let snapshot = self.ctx.snapshot();
+        let tree_builder = self.ctx.tree_builder();
+        self.ctx
+            .catalog()
+            .claim_relation(instr.table_id, &tree_builder, &snapshot)?;
+        let mut relation =
+            self.ctx
+                .catalog()
+                .get_relation(instr.table_id, &tree_builder, &snapshot)?;
+        if !relation.is_table() {
+            return Err(RuntimeError::Schema(SchemaError::NotATable));
+        }
 
-        println!("INdice creado con id {index_id}");
+        let index_id =
+            self.create_unique_index(&mut relation, &instr.index_name, &instr.columns)?;
+        let change = RelationChange {
+            schema: Some(relation.into_schema()),
+            ..Default::default()
+        };
+        let result =
+            self.ctx
+                .catalog()
+                .update_relation(instr.table_id, change, &tree_builder, &snapshot);
+        if let Err(err) = result {
+            self.discard_indexes(vec![index_id])?;
+            return Err(err.into());
+        }
 
         let redo_bytes = instr.to_bytes()?;
         let undo_instr = instr.inverse(index_id);
@@ -775,19 +906,45 @@ impl DdlExecutor {
             )));
         }
 
-        let undo_instr = instr.try_inverse_with(relation.schema())?;
-        let action_desc = self.apply_alter_action(&mut relation, &instr.action)?;
-
-        let id = relation.object_id();
-        self.ctx.catalog().update_relation(
-            id,
-            None,
-            Some(relation.into_schema()),
-            None,
-            &tree_builder,
-            self.ctx.snapshot(),
-        )?;
+        self.ctx
+            .catalog()
+            .claim_relation(instr.table_id, &tree_builder, &snapshot)?;
+
+        let before = relation.clone();
+        let mut changes = TableChanges::default();
+        let result = self
+            .apply_alter_action(&mut relation, &instr.action, &mut changes)
+            .and_then(|action| {
+                let change = RelationChange {
+                    schema: Some(relation.schema().clone()),
+                    root: Some(relation.root()),
+                    stats: None,
+                };
+                self.ctx.catalog().update_relation(
+                    instr.table_id,
+                    change,
+                    &tree_builder,
+                    &snapshot,
+                )?;
+                Ok(action)
+            });
+
+        let action_desc = match result {
+            Ok(action) => action,
+            Err(err) => {
+                self.discard_indexes(changes.new_indexes)?;
+                if relation.root() != before.root() {
+                    self.dealloc_roots(&[relation.root()]);
+                }
+                return Err(err);
+            }
+        };
+        self.discard_indexes(changes.old_indexes)?;
 
+        let undo_instr = match &instr.action {
+            AlterActionInstr::AddColumn { .. } => instr.try_inverse_with(relation.schema())?,
+            _ => instr.try_inverse_with(before.schema())?,
+        };
         let redo_bytes = instr.to_bytes()?;
         let undo_bytes = undo_instr.to_bytes()?;
 
@@ -801,53 +958,92 @@ impl DdlExecutor {
     }
 
     fn apply_alter_action(
-        &mut self,
+        &self,
         relation: &mut Relation,
         action: &AlterActionInstr,
+        changes: &mut TableChanges,
     ) -> RuntimeResult<String> {
         match action {
             AlterActionInstr::AddColumn { column } => {
                 let name = column.name().to_string();
-                relation.add_column(column.clone())?;
+                let mut altered = relation.clone();
+                altered.add_column(column.clone())?;
+
+                let value = column.default_value()?;
+                if column.is_non_null && value.is_null() && self.has_rows(relation)? {
+                    return Err(self.null_violation(relation, &name));
+                }
+                self.rewrite_rows(relation, altered.into_schema(), |row| {
+                    row.push(value.clone());
+                    Ok(())
+                })?;
                 Ok(format!("ADD COLUMN {}", name))
             }
             AlterActionInstr::DropColumn { column_idx } => {
-                let schema = relation.schema_mut();
-                if *column_idx < schema.num_keys() {
+                let column_idx = *column_idx;
+                if column_idx < relation.schema().num_keys() {
                     return Err(RuntimeError::CannotUpdateKeyColumn);
                 }
 
-                let name = schema
-                    .column(*column_idx)
-                    .ok_or(SchemaError::ColumnIndexOutOfBounds(*column_idx))?
-                    .name()
-                    .to_string();
-                schema.remove_column_unchecked(*column_idx);
+                let name = Self::column_of(relation, column_idx)?.name().to_string();
+                let mut altered = relation.schema().clone();
+                changes.old_indexes = altered.drop_column(column_idx);
+                self.rewrite_rows(relation, altered, |row| {
+                    row.remove(column_idx);
+                    Ok(())
+                })?;
                 Ok(format!("DROP COLUMN {}", name))
             }
             AlterActionInstr::AlterColumn { column_idx, action } => {
-                self.apply_column_alter(relation, *column_idx, action)
+                self.apply_column_alter(relation, *column_idx, action, changes)
             }
             AlterActionInstr::AddConstraint(constraint) => {
-                self.add_constraint(relation, constraint)
+                self.add_constraint(relation, constraint, &mut changes.new_indexes)
             }
         }
     }
 
+    fn column_of(relation: &Relation, column_idx: usize) -> RuntimeResult<&Column> {
+        Ok(relation
+            .schema()
+            .column(column_idx)
+            .ok_or(SchemaError::ColumnIndexOutOfBounds(column_idx))?)
+    }
+
+    fn null_violation(&self, relation: &Relation, column: &str) -> RuntimeError {
+        ValidationError::NonNullConstraintViolated(DatabaseItem::Column(
+            relation.name().to_string(),
+            column.to_string(),
+        ))
+        .into()
+    }
+
     fn apply_column_alter(
         &self,
         relation: &mut Relation,
         column_idx: usize,
         action: &AlterColumnActionInstr,
+        changes: &mut TableChanges,
     ) -> RuntimeResult<String> {
-        let schema = relation.schema_mut();
-        let column = schema
-            .columns
-            .get_mut(column_idx)
-            .ok_or(SchemaError::ColumnIndexOutOfBounds(column_idx))?;
+        if column_idx < relation.schema().num_keys() {
+            return Err(RuntimeError::CannotUpdateKeyColumn);
+        }
+        let column_name = Self::column_of(relation, column_idx)?.name().to_string();
 
-        let column_name = column.name().to_string();
+        match action {
+            AlterColumnActionInstr::SetNotNull { .. } => {
+                self.check_not_null(relation, column_idx)?;
+            }
+            AlterColumnActionInstr::SetDataType { new_type, .. } => {
+                self.change_type(relation, column_idx, *new_type, changes)?;
+            }
+            _ => {}
+        }
 
+        let column = relation
+            .schema_mut()
+            .column_mut(column_idx)
+            .ok_or(SchemaError::ColumnIndexOutOfBounds(column_idx))?;
         match action {
             AlterColumnActionInstr::SetDefault { new_default, .. } => {
                 column.default = new_default.clone();
@@ -861,234 +1057,295 @@ impl DdlExecutor {
             AlterColumnActionInstr::DropNotNull { .. } => {
                 column.is_non_null = false;
             }
-            AlterColumnActionInstr::SetDataType { new_type, .. } => {
-                column.dtype = *new_type;
-            }
+            AlterColumnActionInstr::SetDataType { .. } => {}
         }
 
         Ok(format!("ALTER COLUMN {}", column_name))
     }
 
-    fn add_constraint(
-        &mut self,
+    /// Changes the type of a column: its values, its default and the indexes it is part of.
+    fn change_type(
+        &self,
         relation: &mut Relation,
-        constraint: &TableConstraint,
-    ) -> RuntimeResult<String> {
-        match constraint {
-            TableConstraint::PrimaryKey(col_indices) => {
-                if relation.schema().has_primary_key() {
-                    return Err(RuntimeError::Schema(SchemaError::DuplicatePrimaryKey));
-                }
+        column_idx: usize,
+        new_type: u8,
+        changes: &mut TableChanges,
+    ) -> RuntimeResult<()> {
+        let kind = DataTypeKind::from_repr(new_type)
+            .ok_or(RuntimeError::Other(format!("unknown data type {new_type}")))?;
+        let column = Self::column_of(relation, column_idx)?;
+        if column.datatype() == kind {
+            return Ok(());
+        }
 
-                {
-                    let schema_mut = relation.schema_mut();
-                    if let Some(constraints) = schema_mut.table_constraints.as_mut() {
-                        constraints.push(TableConstraint::PrimaryKey(col_indices.clone()));
-                    }
+        let mut altered = relation.schema().clone();
+        let default = column.default_value()?;
+        if let Some(column) = altered.column_mut(column_idx) {
+            column.dtype = new_type;
+            column.default = match default {
+                DataType::Null => None,
+                value => Some(value.try_cast(kind)?.serialize()?),
+            };
+        }
 
-                    for index in col_indices {
-                        let col = schema_mut
-                            .column_mut(*index)
-                            .ok_or(SchemaError::ColumnIndexOutOfBounds(*index))?;
-                        col.is_non_null = true;
-                    }
+        let mut rebuilt = Vec::new();
+        if let Some(indexes) = altered.table_indexes.as_mut() {
+            indexes.retain(|id, columns| {
+                let affected = columns.contains(&column_idx);
+                if affected {
+                    changes.old_indexes.push(*id);
+                    rebuilt.push((*id, columns.clone()));
                 }
+                !affected
+            });
+        }
 
-                let col_names: Vec<String> = col_indices
-                    .iter()
-                    .filter_map(|&idx| relation.schema().column(idx).map(|c| c.name().to_string()))
-                    .collect();
+        self.rewrite_rows(relation, altered, |row| {
+            row[column_idx] = row[column_idx].try_cast(kind)?;
+            Ok(())
+        })?;
 
-                let idx_name = index_name(&col_names, relation.name());
-                self.create_unique_index(relation.object_id(), &idx_name, col_indices)?;
+        for (id, columns) in rebuilt {
+            let tree_builder = self.ctx.tree_builder();
+            let name = self
+                .ctx
+                .catalog()
+                .get_relation(id, &tree_builder, self.ctx.snapshot())?
+                .name()
+                .to_string();
+            let name = self.free_name(&name);
+            let id = self.create_unique_index(relation, &name, &columns)?;
+            changes.new_indexes.push(id);
+        }
+        Ok(())
+    }
 
-                Ok(format!(
-                    "ADDED PRIMARY KEY CONSTRAINT ON COLUMNS: {}",
-                    col_names.join(", ")
-                ))
-            }
-            TableConstraint::Unique(col_indices) => {
-                if let Some(constraints) = relation.schema_mut().table_constraints.as_mut() {
-                    constraints.push(TableConstraint::Unique(col_indices.clone()));
+    /// Copies the rows of a table to a new tree, in a different shape.
+    ///
+    /// The old tree stays as it is, for the transactions that still see the table as it was.
+    fn rewrite_rows(
+        &self,
+        relation: &mut Relation,
+        schema: Schema,
+        change: impl Fn(&mut Vec<DataType>) -> RuntimeResult<()>,
+    ) -> RuntimeResult<()> {
+        let rows = self.read_all(relation)?;
+
+        let root = self.allocate_root()?;
+        let copy = || -> RuntimeResult<()> {
+            let mut tree = self.ctx.build_tree_mut(root);
+            for (tuple, row) in &rows {
+                let mut values = row.as_slice().to_vec();
+                change(&mut values)?;
+
+                let row = Row::from(values);
+                let mut copied = TupleBuilder::from_schema(&schema).build(&row, tuple.xmin())?;
+                if let Some(xid) = tuple.xmax() {
+                    copied.delete(xid)?;
                 }
-
-                let col_names: Vec<String> = col_indices
-                    .iter()
-                    .filter_map(|&idx| relation.schema().column(idx).map(|c| c.name().to_string()))
-                    .collect();
-
-                let idx_name = index_name(&col_names, relation.name());
-                self.create_unique_index(relation.object_id(), &idx_name, col_indices)?;
-
-                Ok(format!(
-                    "ADDED UNIQUE CONSTRAINT ON COLUMNS: {}",
-                    col_names.join(", ")
-                ))
+                tree.insert(root, copied, &schema)?;
             }
-            TableConstraint::ForeignKey { columns, info } => {
-                if let Some(constraints) = relation.schema_mut().table_constraints.as_mut() {
-                    constraints.push(TableConstraint::ForeignKey {
-                        columns: columns.clone(),
-                        info: info.clone(),
-                    });
-                }
+            Ok(())
+        };
+
+        if let Err(err) = copy() {
+            self.dealloc_roots(&[root]);
+            return Err(err);
+        }
 
-                let table_name = relation.name().to_string();
+        // Trees that an action has built on its way to the last one are of no use.
+        *relation.schema_mut() = schema;
+        relation.set_root_page(root);
+        Ok(())
+    }
 
-                let col_names: Vec<String> = columns
-                    .iter()
-                    .filter_map(|&idx| relation.schema().column(idx).map(|c| c.name().to_string()))
-                    .collect();
+    /// Reads the rows of a table that some transaction may see, in their newest version.
+    fn read_all(&self, relation: &Relation) -> RuntimeResult<Vec<(Tuple, Row)>> {
+        let schema = relation.schema();
+        let mut tree = self.ctx.build_tree(relation.root());
+        let mut rows = Vec::new();
+        if tree.is_empty()? {
+            return Ok(rows);
+        }
 
-                Ok(format!(
-                    "ADDED FOREIGN KEY CONSTRAINT TO {}  ON {}",
-                    table_name,
-                    col_names.join(", ")
-                ))
+        for position in tree.iter_forward()? {
+            let mut tuple = tree.get_tuple_at_unchecked(position?, schema)?;
+            if self.ctx.state_of(tuple.xmin()) == TransactionState::Aborted {
+                continue;
+            }
+            if let Some(xid) = tuple.xmax()
+                && self.ctx.state_of(xid) == TransactionState::Aborted
+            {
+                tuple.undelete();
             }
+            let row = tuple.as_tuple_ref_with(schema).to_row_with(schema)?;
+            rows.push((tuple, row));
         }
+        Ok(rows)
     }
 
-    fn create_unique_index(
-        &mut self,
-        table_id: ObjectId,
-        index_name: &str,
-        indexed_column_ids: &[usize],
-    ) -> RuntimeResult<ObjectId> {
-        let num_keys = indexed_column_ids.len();
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        let mut table_relation =
-            self.ctx
-                .catalog()
-                .get_relation(table_id, &tree_builder, &snapshot)?;
-
-        let table_root = table_relation.root();
+    /// The rows of a table that have not been deleted.
+    fn live_rows(&self, relation: &Relation) -> RuntimeResult<Vec<Row>> {
+        let rows = self.read_all(relation)?;
+        Ok(rows
+            .into_iter()
+            .filter(|(tuple, _)| IndexTarget::is_taken(&self.ctx, tuple))
+            .map(|(_, row)| row)
+            .collect())
+    }
 
-        let mut index_columns: Vec<Column> = Vec::with_capacity(indexed_column_ids.len() + 1);
+    fn has_rows(&self, relation: &Relation) -> RuntimeResult<bool> {
+        Ok(!self.live_rows(relation)?.is_empty())
+    }
 
-        {
-            let table_schema = table_relation.schema();
-            for idx in indexed_column_ids {
-                if let Some(column) = table_schema.column(*idx) {
-                    index_columns.push(Column::new_with_defaults(column.datatype(), column.name()));
-                }
-            }
+    fn check_not_null(&self, relation: &Relation, column_idx: usize) -> RuntimeResult<()> {
+        let rows = self.live_rows(relation)?;
+        if rows.iter().any(|row| row[column_idx].is_null()) {
+            let column = Self::column_of(relation, column_idx)?;
+            return Err(self.null_violation(relation, column.name()));
         }
+        Ok(())
+    }
 
-        index_columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
-
-        let object_id = self.ctx.catalog().get_next_object_id();
-        let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
-
-        let index_relation =
-            Relation::index(object_id, index_name, root_page, index_columns, num_keys);
+    fn column_names(relation: &Relation, columns: &[usize]) -> RuntimeResult<Vec<String>> {
+        columns
+            .iter()
+            .map(|&column| Ok(Self::column_of(relation, column)?.name().to_string()))
+            .collect()
+    }
 
-        let index_root = index_relation.root();
-        let index_schema = index_relation.schema().clone();
+    /// A name for an index that nothing else has.
+    fn free_name(&self, wanted: &str) -> String {
+        let mut name = wanted.to_string();
+        let mut suffix = 1;
+        while self.relation_exists(&name) {
+            suffix += 1;
+            name = format!("{wanted}_{suffix}");
+        }
+        name
+    }
 
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
+    /// Makes sure that there is a unique index on the given columns.
+    fn ensure_unique_index(
+        &self,
+        relation: &mut Relation,
+        columns: &[usize],
+        indexes: &mut Vec<ObjectId>,
+    ) -> RuntimeResult<()> {
+        if relation.schema().get_index_for_column_list(columns).is_some() {
+            return Ok(());
+        }
+        let names = Self::column_names(relation, columns)?;
+        let name = self.free_name(&index_name(&names, relation.name()));
+        let id = self.create_unique_index(relation, &name, columns)?;
+        indexes.push(id);
+        Ok(())
+    }
 
-        self.ctx
-            .catalog()
-            .store_relation(index_relation, &tree_builder, snapshot.xid())?;
+    fn add_constraint(
+        &self,
+        relation: &mut Relation,
+        constraint: &TableConstraint,
+        indexes: &mut Vec<ObjectId>,
+    ) -> RuntimeResult<String> {
+        let description = match constraint {
+            TableConstraint::PrimaryKey(columns) => {
+                if relation.schema().has_primary_key() {
+                    return Err(RuntimeError::Schema(SchemaError::DuplicatePrimaryKey));
+                }
 
-        {
-            let table_schema = table_relation.schema_mut();
+                let names = Self::column_names(relation, columns)?;
+                for column in columns {
+                    self.check_not_null(relation, *column)?;
+                }
+                self.ensure_unique_index(relation, columns, indexes)?;
 
-            if let Some(constraints) = table_schema.table_constraints.as_mut() {
-                let already_exists = constraints.iter().any(
-                    |c| matches!(c, TableConstraint::Unique(cols) if cols == indexed_column_ids),
-                );
-                if !already_exists {
-                    constraints.push(TableConstraint::Unique(indexed_column_ids.to_vec()));
+                for column in columns {
+                    if let Some(column) = relation.schema_mut().column_mut(*column) {
+                        column.is_non_null = true;
+                    }
                 }
+                format!("ADDED PRIMARY KEY CONSTRAINT ON COLUMNS: {}", names.join(", "))
             }
-
-            if let Some(indexes) = table_schema.table_indexes.as_mut() {
-                indexes.insert(object_id, indexed_column_ids.to_vec());
+            TableConstraint::Unique(columns) => {
+                let names = Self::column_names(relation, columns)?;
+                self.ensure_unique_index(relation, columns, indexes)?;
+                format!("ADDED UNIQUE CONSTRAINT ON COLUMNS: {}", names.join(", "))
             }
-        }
-
-        self.ctx.catalog().update_relation(
-            table_id,
-            None,
-            Some(table_relation.schema().clone()),
-            None,
-            &tree_builder,
-            &snapshot,
-        )?;
-
-        self.populate_index(
-            table_root,
-            table_relation.schema(),
-            index_root,
-            &index_schema,
-            indexed_column_ids,
-        )?;
+            TableConstraint::ForeignKey { columns, info } => {
+                let names = Self::column_names(relation, columns)?;
+
+                let mut constrained = relation.schema().clone();
+                constrained.push_constraint(constraint.clone());
+                let name = relation.name().to_string();
+                let validator = ConstraintValidator::new(&constrained, name, self.ctx.clone());
+                for row in self.live_rows(relation)? {
+                    validator.validate_foreign_key_constraints(row.as_slice())?;
+                }
+                format!(
+                    "ADDED FOREIGN KEY CONSTRAINT TO {}  ON {}",
+                    relation.name(),
+                    names.join(", ")
+                )
+            }
+        };
 
-        Ok(object_id)
+        relation.schema_mut().push_constraint(constraint.clone());
+        Ok(description)
     }
 
-    fn populate_index(
-        &mut self,
-        table_root: PageId,
-        table_schema: &Schema,
-        index_root: PageId,
-        index_schema: &Schema,
+    /// Creates an index on a table and fills it.
+    fn create_unique_index(
+        &self,
+        relation: &mut Relation,
+        index_name: &str,
         indexed_column_ids: &[usize],
-    ) -> RuntimeResult<()> {
-        let snapshot = self.ctx.snapshot();
-        let tid = snapshot.xid();
-
-        let mut index_entries: Vec<Row> = Vec::new();
-
-        {
-            let mut table_btree = self.ctx.build_tree(table_root);
-
-            if table_btree.is_empty()? {
-                return Ok(());
+    ) -> RuntimeResult<ObjectId> {
+        let mut index_columns: Vec<Column> = Vec::with_capacity(indexed_column_ids.len() + 1);
+        let mut seen = HashSet::new();
+        for column_idx in indexed_column_ids {
+            let column = Self::column_of(relation, *column_idx)?;
+            if *column_idx < relation.schema().num_keys() || !seen.insert(*column_idx) {
+                return Err(RuntimeError::Other(format!(
+                    "cannot use column {} here",
+                    column.name()
+                )));
             }
+            index_columns.push(Column::new_with_defaults(column.datatype(), column.name()));
+        }
+        index_columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
 
-            let positions: Vec<crate::tree::accessor::BtreePagePosition> = table_btree
-                .iter_forward()?
-                .filter(|p| p.is_ok())
-                .map(|f| f.unwrap())
-                .collect();
-
-            for pos in positions {
-                let row = table_btree.get_row_at(pos, table_schema, &snapshot)?;
-
-                let Some(row) = row else { continue };
-
-                let row_id = row.first();
-                let Some(DataType::BigUInt(UInt64(value))) = row_id else {
-                    return Err(RuntimeError::Other(
-                        "Tables should have row id type for the first column!".to_string(),
-                    ));
-                };
-
-                let mut entry_values: Vec<DataType> =
-                    Vec::with_capacity(indexed_column_ids.len() + 1);
-                for &col_idx in indexed_column_ids {
-                    if col_idx < row.len() {
-                        entry_values.push(row[col_idx].clone());
-                    }
-                }
-                entry_values.push(DataType::BigUInt(UInt64(*value)));
-
-                index_entries.push(Row::new(entry_values.into_boxed_slice()));
-            }
+        // The row id is part of the key: rows that do not exist at the same time may share values.
+        let num_keys = index_columns.len();
+        let object_id = self.ctx.catalog().get_next_object_id();
+        let root = self.allocate_root()?;
+        let index = Relation::index(object_id, index_name, root, index_columns, num_keys);
+        let target = IndexTarget::new(indexed_column_ids.to_vec(), root, index.schema().clone());
+
+        let result = self
+            .populate_index(relation, &target)
+            .and_then(|_| self.store_relation(index));
+        if let Err(err) = result {
+            self.dealloc_roots(&[root]);
+            return Err(err);
         }
 
-        let mut index_btree = self.ctx.build_tree_mut(index_root);
-        for entry in index_entries {
-            let tuple = TupleBuilder::from_schema(index_schema).build(&entry, tid)?;
-            index_btree.insert(index_root, tuple, index_schema)?;
+        let schema = relation.schema_mut();
+        let constraint = TableConstraint::Unique(indexed_column_ids.to_vec());
+        schema.push_constraint(constraint);
+        if let Some(indexes) = schema.table_indexes.as_mut() {
+            indexes.insert(object_id, indexed_column_ids.to_vec());
         }
+        Ok(object_id)
+    }
 
+    fn populate_index(&self, relation: &Relation, target: &IndexTarget) -> RuntimeResult<()> {
+        let rows = self.read_all(relation)?;
+        for (tuple, row) in rows {
+            if let Some(entry) = target.entry_of(&row)? {
+                target.add_existing(&self.ctx, relation, &entry, &tuple)?;
+            }
+        }
         Ok(())
     }
 
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 2006ba7..3430e00 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -3,24 +3,28 @@
 //! This module provides a unified interface for Insert, Update, and Delete operations
 //! on individual rows, including automatic maintenance of secondary indexes.
 
-use std::collections::{HashMap, HashSet};
+use std::{cmp::Ordering, collections::HashMap};
 
 use crate::{
     core::SerializableType,
+    multithreading::coordinator::TransactionState,
     runtime::{
         RuntimeError, RuntimeResult, TypeSystemError,
         context::{ThreadContext, TransactionLogger},
         eval::ExpressionEvaluator,
-        validator::ConstraintValidator,
-    },
-    schema::{
-        Schema,
-        base::{IndexHandle, Relation},
+        validator::{ConstraintValidator, ValidationError},
     },
+    schema::{DatabaseItem, Schema, base::Relation},
     sql::binder::bounds::BoundExpression,
-    storage::tuple::{Row, Tuple, TupleBuilder, TupleReader},
-    tree::bplustree::SearchResult,
-    types::{DataType, ObjectId, RowId, UInt64},
+    storage::{
+        core::traits::BtreeMetadata,
+        tuple::{Row, Tuple, TupleBuilder},
+    },
+    tree::{
+        accessor::{BtreePagePosition, BtreeWriteAccessor, PositionStack, TreeReader},
+        bplustree::{Btree, SearchResult},
+    },
+    types::{DataType, ObjectId, PageId, RowId, TransactionId, UInt64},
 };
 
 /// Result of an insert operation.
@@ -41,10 +45,272 @@ pub struct DeleteResult {
     pub deleted: bool,
 }
 
-/// Executes single-row DML operations with automatic index maintenance.
+/// A row to insert, update or delete, together with what it takes to log it.
+struct RowChange {
+    row_id: RowId,
+    old: Option<(Tuple, Row)>,
+    new: Option<(Tuple, Row)>,
+}
+
+/// How to take back a write to a tree.
+enum Undo {
+    Remove(Tuple),
+    Put(Tuple),
+}
+
+/// The writes of a statement, so that one that fails leaves nothing behind.
+#[derive(Default)]
+struct WriteSet {
+    undo: Vec<(PageId, Schema, Undo)>,
+}
+
+impl WriteSet {
+    fn inserted(&mut self, root: PageId, schema: &Schema, tuple: Tuple) {
+        self.undo.push((root, schema.clone(), Undo::Remove(tuple)));
+    }
+
+    fn replaced(&mut self, root: PageId, schema: &Schema, previous: Tuple) {
+        self.undo.push((root, schema.clone(), Undo::Put(previous)));
+    }
+
+    fn rollback(&mut self, ctx: &ThreadContext) -> RuntimeResult<()> {
+        while let Some((root, schema, undo)) = self.undo.pop() {
+            let mut tree = ctx.build_tree_mut(root);
+            match undo {
+                Undo::Remove(tuple) => tree.remove_tuple(root, &tuple, &schema)?,
+                Undo::Put(tuple) => tree.upsert(root, tuple, &schema)?,
+            }
+        }
+        Ok(())
+    }
+}
+
+/// An index of a table. Its entries are the indexed columns followed by the row id, all of them
+/// keys. Rows with a NULL in an indexed column have no entry.
+pub(crate) struct IndexTarget {
+    columns: Vec<usize>,
+    root: PageId,
+    schema: Schema,
+}
+
+impl IndexTarget {
+    pub(crate) fn new(columns: Vec<usize>, root: PageId, schema: Schema) -> Self {
+        Self {
+            columns,
+            root,
+            schema,
+        }
+    }
+
+    /// All the indexes of a table.
+    pub(crate) fn of_table(ctx: &ThreadContext, table: &Schema) -> RuntimeResult<Vec<Self>> {
+        let tree_builder = ctx.tree_builder();
+        let mut targets = Vec::new();
+        for handle in table.get_indexes() {
+            let index = ctx
+                .catalog()
+                .get_relation(handle.id(), &tree_builder, ctx.snapshot())?;
+            targets.push(Self::new(
+                handle.indexed_column_ids().to_vec(),
+                index.root(),
+                index.schema().clone(),
+            ));
+        }
+        Ok(targets)
+    }
+
+    pub(crate) fn columns(&self) -> &[usize] {
+        &self.columns
+    }
+
+    /// The entry of a table row.
+    pub(crate) fn entry_of(&self, row: &Row) -> RuntimeResult<Option<Row>> {
+        let mut entry: Vec<DataType> = Vec::with_capacity(self.columns.len() + 1);
+        for column in &self.columns {
+            let value = row
+                .as_slice()
+                .get(*column)
+                .ok_or(RuntimeError::ColumnNotFound(*column))?;
+            if value.is_null() {
+                return Ok(None);
+            }
+            entry.push(value.clone());
+        }
+        entry.push(row[0].clone());
+        Ok(Some(Row::from(entry)))
+    }
+
+    pub(crate) fn build_entry(&self, entry: &Row, xid: TransactionId) -> RuntimeResult<Tuple> {
+        Ok(TupleBuilder::from_schema(&self.schema).build(entry, xid)?)
+    }
+
+    /// The entries that agree with the given one on all the indexed columns, in all states.
+    pub(crate) fn entries_like<Acc: TreeReader>(
+        &self,
+        tree: &mut Btree<Acc>,
+        entry: &[DataType],
+    ) -> RuntimeResult<Vec<(Tuple, Row)>> {
+        let mut found = Vec::new();
+        if tree.is_empty()? {
+            return Ok(found);
+        }
+
+        let key = &entry[..self.columns.len()];
+        let mut lowest = key.to_vec();
+        lowest.push(DataType::BigUInt(UInt64(0)));
+        let probe = self.build_entry(&Row::from(lowest), 0)?;
+
+        let (SearchResult::Found(position) | SearchResult::NotFound(position)) =
+            tree.search_tuple(&probe, &self.schema)?;
+        tree.accessor_mut()?.clear_traversal();
+
+        let mut page = Some(position.entry());
+        'pages: while let Some(leaf) = page {
+            for slot in 0..tree.get_page(leaf)?.num_slots() {
+                let position = BtreePagePosition::new(leaf, slot);
+                let tuple = tree.get_tuple_at_unchecked(position, &self.schema)?;
+                let row = tuple
+                    .as_tuple_ref_with(&self.schema)
+                    .to_row_with(&self.schema)?;
+
+                match row.as_slice()[..key.len()].partial_cmp(key) {
+                    Some(Ordering::Equal) => found.push((tuple, row)),
+                    Some(Ordering::Greater) => break 'pages,
+                    _ => {}
+                }
+            }
+            page = tree.get_page(leaf)?.next_sibling();
+        }
+        Ok(found)
+    }
+
+    /// Whether an entry keeps others from having the same values: its row is not known to be gone.
+    pub(crate) fn is_taken(ctx: &ThreadContext, entry: &Tuple) -> bool {
+        if ctx.state_of(entry.xmin()) == TransactionState::Aborted {
+            return false;
+        }
+        match entry.xmax() {
+            Some(xid) => xid != ctx.tid() && ctx.state_of(xid) != TransactionState::Committed,
+            None => true,
+        }
+    }
+
+    fn violation(&self, relation: &Relation) -> RuntimeError {
+        let columns: Vec<&str> = self
+            .columns
+            .iter()
+            .filter_map(|&column| relation.schema().column(column).map(|c| c.name()))
+            .collect();
+
+        ValidationError::UniqueConstraintViolated(DatabaseItem::Column(
+            columns.join(","),
+            relation.name().to_string(),
+        ))
+        .into()
+    }
+
+    /// Adds an entry unless another row has the same values.
+    /// The entries that [ignore] accepts are about to disappear.
+    fn add(
+        &self,
+        ctx: &ThreadContext,
+        relation: &Relation,
+        entry: &Row,
+        xmin: TransactionId,
+        ignore: impl Fn(&Row) -> bool,
+        writes: &mut WriteSet,
+    ) -> RuntimeResult<()> {
+        let mut tree = ctx.build_tree_mut(self.root);
+
+        let taken = self
+            .entries_like(&mut tree, entry.as_slice())?
+            .iter()
+            .any(|(tuple, existing)| !ignore(existing) && Self::is_taken(ctx, tuple));
+        if taken {
+            return Err(self.violation(relation));
+        }
+
+        let tuple = self.build_entry(entry, xmin)?;
+        tree.upsert(self.root, tuple.clone(), &self.schema)?;
+        writes.inserted(self.root, &self.schema, tuple);
+        Ok(())
+    }
+
+    /// Adds the entry of a row that is already in the table.
+    pub(crate) fn add_existing(
+        &self,
+        ctx: &ThreadContext,
+        relation: &Relation,
+        entry: &Row,
+        row: &Tuple,
+    ) -> RuntimeResult<()> {
+        let mut tree = ctx.build_tree_mut(self.root);
+
+        let taken = Self::is_taken(ctx, row)
+            && self
+                .entries_like(&mut tree, entry.as_slice())?
+                .iter()
+                .any(|(tuple, _)| Self::is_taken(ctx, tuple));
+        if taken {
+            return Err(self.violation(relation));
+        }
+
+        let mut tuple = self.build_entry(entry, row.xmin())?;
+        if let Some(xid) = row.xmax() {
+            tuple.delete(xid)?;
+        }
+        tree.insert(self.root, tuple, &self.schema)?;
+        Ok(())
+    }
+
+    /// Finds an entry.
+    fn get(&self, tree: &mut Btree<BtreeWriteAccessor>, entry: &Row) -> RuntimeResult<Option<Tuple>> {
+        let probe = self.build_entry(entry, 0)?;
+        let result = tree.search_tuple(&probe, &self.schema)?;
+        tree.accessor_mut()?.clear_traversal();
+        match result {
+            SearchResult::Found(position) => {
+                Ok(Some(tree.get_tuple_at_unchecked(position, &self.schema)?))
+            }
+            SearchResult::NotFound(_) => Ok(None),
+        }
+    }
+
+    fn remove(
+        &self,
+        ctx: &ThreadContext,
+        entry: &Row,
+        writes: &mut WriteSet,
+    ) -> RuntimeResult<()> {
+        let mut tree = ctx.build_tree_mut(self.root);
+        if let Some(tuple) = self.get(&mut tree, entry)? {
+            tree.remove_tuple(self.root, &tuple, &self.schema)?;
+            writes.replaced(self.root, &self.schema, tuple);
+        }
+        Ok(())
+    }
+
+    fn mark_deleted(
+        &self,
+        ctx: &ThreadContext,
+        entry: &Row,
+        writes: &mut WriteSet,
+    ) -> RuntimeResult<()> {
+        let mut tree = ctx.build_tree_mut(self.root);
+        if let Some(tuple) = self.get(&mut tree, entry)? {
+            let mut deleted = tuple.clone();
+            deleted.delete(ctx.tid())?;
+            tree.update(self.root, deleted, &self.schema)?;
+            writes.replaced(self.root, &self.schema, tuple);
+        }
+        Ok(())
+    }
+}
+
+/// Executes DML operations with automatic index maintenance.
 ///
 /// This component provides a clean interface for Insert, Update, and Delete
-/// operations.
+/// operations. Each operation does all that it is asked for, or nothing at all.
 pub(crate) struct DmlExecutor {
     ctx: ThreadContext,
     logger: TransactionLogger,
@@ -56,6 +322,14 @@ impl DmlExecutor {
         Self { ctx, logger }
     }
 
+    pub fn ctx(&self) -> &ThreadContext {
+        &self.ctx
+    }
+
+    pub fn logger(&self) -> &TransactionLogger {
+        &self.logger
+    }
+
     /// UTILITY TO BUILD THE ASSIGNMENTS HASHMAP
     fn build_assignments(
         old_row: &Row,
@@ -73,68 +347,104 @@ impl DmlExecutor {
         assignments
     }
 
-    /// Validates constraints for an update operation.
-    ///
-    /// This function checks:
-    /// - NOT NULL constraints on updated columns
-    /// - UNIQUE constraints (excluding the current row) via index lookup
-    pub fn validate_update_constraints(
+    fn relation(&self, table_id: ObjectId) -> RuntimeResult<Relation> {
+        let tree_builder = self.ctx.tree_builder();
+        Ok(self
+            .ctx
+            .catalog()
+            .get_relation(table_id, &tree_builder, self.ctx.snapshot())?)
+    }
+
+    /// Takes rows for writing and makes sure that the table is not being changed by others.
+    fn claim_rows(
         &self,
-        relation: &Relation,
-        old_values: &[DataType],
-        assignments: &HashMap<usize, DataType>,
-        row_id: RowId,
+        table_id: ObjectId,
+        row_ids: impl Iterator<Item = RowId>,
     ) -> RuntimeResult<()> {
-        let schema = relation.schema();
-        let id = relation.object_id();
-
-        // Build the new values array by applying assignments to old values
-        let mut new_values: Vec<DataType> = old_values.to_vec();
-        for (value_idx, value) in assignments {
-            // value_idx is relative to values (after keys), convert to column index
-            let col_idx = value_idx + schema.num_keys();
-            if col_idx < new_values.len() {
-                new_values[col_idx] = value.clone();
-            }
+        for row_id in row_ids {
+            self.ctx.claim_write(table_id, row_id)?;
         }
+        let tree_builder = self.ctx.tree_builder();
+        self.ctx
+            .catalog()
+            .check_writable(table_id, &tree_builder, self.ctx.snapshot())?;
+        Ok(())
+    }
 
+    /// Checks the constraints that do not depend on the other rows of the table.
+    fn validate_row(&self, relation: &Relation, row: &Row) -> RuntimeResult<()> {
         let table_name = relation.name().to_string();
-        let validator = ConstraintValidator::new(schema, table_name, self.ctx.clone());
-
-        // Validate NOT NULL
-        validator.validate_not_null_constraints(&new_values)?;
-
-        // Validate foreign keys.
-        validator.validate_foreign_key_constraints(id, &new_values)?;
-        let mut excluded = HashSet::new();
-        excluded.insert(row_id);
-
-        // Validate UNIQUE
-        validator.validate_unique_constraints(&new_values, true, excluded)?;
-
+        let validator = ConstraintValidator::new(relation.schema(), table_name, self.ctx.clone());
+        validator.validate_not_null_constraints(row.as_slice())?;
+        validator.validate_foreign_key_constraints(row.as_slice())?;
         Ok(())
     }
 
-    pub(crate) fn validate_insert_constraints(
+    /// Reads the rows of a table that are visible to the transaction.
+    fn read_rows(
         &self,
         relation: &Relation,
-        new_values: &[DataType],
-    ) -> RuntimeResult<()> {
+        row_ids: &[RowId],
+    ) -> RuntimeResult<Vec<Option<(Tuple, Row)>>> {
         let schema = relation.schema();
-        let id = relation.object_id();
-        let table_name = relation.name().to_string();
-        let validator = ConstraintValidator::new(schema, table_name, self.ctx.clone());
-
-        // Validate NOT NULL
-        validator.validate_not_null_constraints(&new_values)?;
+        let mut rows = Vec::with_capacity(row_ids.len());
+
+        for row_id in row_ids {
+            let mut tree = self.ctx.build_tree(relation.root());
+            let key = UInt64(*row_id).serialize()?;
+            let row = match tree.search(&key, schema)? {
+                SearchResult::Found(position) => {
+                    let row = tree.get_row_at(position, schema, self.ctx.snapshot())?;
+                    match row {
+                        Some(row) => Some((tree.get_tuple_at_unchecked(position, schema)?, row)),
+                        None => None,
+                    }
+                }
+                SearchResult::NotFound(_) => None,
+            };
 
-        // Validate foreign keys.
-        validator.validate_foreign_key_constraints(id, &new_values)?;
+            if let Some((tuple, _)) = &row {
+                self.ctx
+                    .check_deleter(relation.object_id(), *row_id, tuple.xmax())?;
+            }
+            rows.push(row);
+        }
+        Ok(rows)
+    }
 
-        // Validate UNIQUE
-        validator.validate_unique_constraints(&new_values, true, HashSet::new())?;
+    /// The images of a row that go to the log, before and after.
+    fn log_images(
+        &self,
+        schema: &Schema,
+        old: Option<&Row>,
+        new: Option<&Row>,
+    ) -> RuntimeResult<(Box<[u8]>, Box<[u8]>)> {
+        let tid = self.ctx.tid();
+        let image = |row: Option<&Row>| -> RuntimeResult<Box<[u8]>> {
+            match row {
+                Some(row) => {
+                    let tuple = TupleBuilder::from_schema(schema).build(row, tid)?;
+                    Ok(Box::from(&tuple))
+                }
+                None => Ok(Box::default()),
+            }
+        };
+        let images = (image(old)?, image(new)?);
+        self.logger.check_payload(images.0.len(), images.1.len())?;
+        Ok(images)
+    }
 
-        Ok(())
+    /// Runs the writes of a statement. If they fail, none of them remains.
+    fn apply(
+        &self,
+        write: impl FnOnce(&mut WriteSet) -> RuntimeResult<()>,
+    ) -> RuntimeResult<()> {
+        let mut writes = WriteSet::default();
+        let result = write(&mut writes);
+        if result.is_err() {
+            writes.rollback(&self.ctx)?;
+        }
+        result
     }
 
     /// Inserts a new row into the specified table.
@@ -152,89 +462,82 @@ impl DmlExecutor {
         columns: &[usize],
         values: &Row,
     ) -> RuntimeResult<InsertResult> {
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot().clone();
-        let tid = self.ctx.tid();
-
-        // Get the relation and allocate a new row ID
-        let mut relation = self
-            .ctx
-            .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
-
-        let row_id = relation.next_row_id();
-        relation.increment_row_id();
-
-        let schema = relation.schema().clone();
-        let root = relation.root();
-
-        // Build the full row with the assigned row ID
-        let full_row = self.build_full_row(&schema, columns, values, row_id)?;
-
-        // Constraint validation goes here.
-        self.validate_insert_constraints(&relation, full_row.as_slice())?;
-        let indexes = relation.get_indexes();
-
-        // Create and insert the tuple
-        let tuple = TupleBuilder::from_schema(&schema).build(&full_row, tid)?;
-
-        // Log the insert operation
-        self.logger
-            .log_insert(table_id, row_id.value(), Box::from(&tuple))?;
-
-        // Table access scope
-        {
-            // Insert into main table
-            let mut btree = self.ctx.build_tree_mut(root);
-            let search_result = btree.search_tuple(&tuple, &schema)?;
+        let row_id = self.insert_rows(table_id, columns, std::slice::from_ref(values))?;
+        Ok(InsertResult { row_id })
+    }
 
-            if let SearchResult::Found(position) = search_result {
-                let existing = btree.get_tuple_at_unchecked(position, &schema)?;
+    /// Inserts rows into a table. The row ids follow each other, the first one is returned.
+    pub(crate) fn insert_rows(
+        &mut self,
+        table_id: ObjectId,
+        columns: &[usize],
+        values: &[Row],
+    ) -> RuntimeResult<RowId> {
+        let tree_builder = self.ctx.tree_builder();
+        let first = self.ctx.catalog().allocate_row_ids(
+            table_id,
+            values.len() as u64,
+            &tree_builder,
+            self.ctx.snapshot(),
+        )?;
+        self.insert_rows_at(table_id, columns, values, first)?;
+        Ok(first)
+    }
 
-                // If it is deleted we need to un-delete it
-                if existing.is_deleted() {
-                    btree.update(root, tuple, &schema)?;
-                };
+    /// Inserts rows into a table, with row ids that have already been taken.
+    pub(crate) fn insert_rows_at(
+        &mut self,
+        table_id: ObjectId,
+        columns: &[usize],
+        values: &[Row],
+        first: RowId,
+    ) -> RuntimeResult<()> {
+        let tid = self.ctx.tid();
+        let row_ids = first..first + values.len() as u64;
+        self.claim_rows(table_id, row_ids.clone())?;
 
-                // Otherwise there is nothing to do. Just keep the tuple there.
-            } else {
-                btree.insert(root, tuple, &schema)?;
-            }
+        let relation = self.relation(table_id)?;
+        let schema = relation.schema();
+        let indexes = IndexTarget::of_table(&self.ctx, schema)?;
+
+        let mut changes = Vec::with_capacity(values.len());
+        let mut images = Vec::with_capacity(values.len());
+        for (row_id, values) in row_ids.zip(values) {
+            let row = self.build_full_row(schema, columns, values, row_id)?;
+            self.validate_row(&relation, &row)?;
+            images.push(self.log_images(schema, None, Some(&row))?.1);
+
+            let tuple = TupleBuilder::from_schema(schema).build(&row, tid)?;
+            changes.push(RowChange {
+                row_id,
+                old: None,
+                new: Some((tuple, row)),
+            });
         }
 
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            None,
-            Some(full_row),
-            None,
-            &schema,
-            row_id.value(),
-        )?;
+        self.apply(|writes| {
+            for index in &indexes {
+                for (_, row) in changes.iter().filter_map(|change| change.new.as_ref()) {
+                    if let Some(entry) = index.entry_of(row)? {
+                        index.add(&self.ctx, &relation, &entry, tid, |_| false, writes)?;
+                    }
+                }
+            }
 
-        // Update relation metadata
-        self.ctx.catalog().update_relation(
-            relation.object_id(),
-            Some(relation.next_row_id().value()),
-            None,
-            None,
-            &tree_builder,
-            &snapshot,
-        )?;
+            let root = relation.root();
+            for (tuple, _) in changes.iter().filter_map(|change| change.new.as_ref()) {
+                let mut table = self.ctx.build_tree_mut(root);
+                table.insert(root, tuple.clone(), schema)?;
+                writes.inserted(root, schema, tuple.clone());
+            }
 
-        Ok(InsertResult {
-            row_id: row_id.value(),
+            for (change, image) in changes.iter().zip(images) {
+                self.logger.log_insert(table_id, change.row_id, image)?;
+            }
+            Ok(())
         })
     }
 
-    pub fn ctx(&self) -> &ThreadContext {
-        &self.ctx
-    }
-
-    pub fn logger(&self) -> &TransactionLogger {
-        &self.logger
-    }
-
     /// Synthactic sugar for the update function
     pub fn update_row(
         &mut self,
@@ -244,101 +547,119 @@ impl DmlExecutor {
         new_row: &Row,
     ) -> RuntimeResult<UpdateResult> {
         let assignments = Self::build_assignments(old_row, new_row, 1);
-        self.update(table_id, row_id, assignments)
+        let updated = self.update_rows(table_id, vec![(row_id.value(), assignments)])?;
+        Ok(UpdateResult {
+            updated: updated > 0,
+        })
     }
 
-    /// Updates a row identified by its row ID.
+    /// Updates rows identified by their row ids.
     ///
     /// # Arguments
     /// * `table_id` - The ID of the target table
-    /// * `row_id` - The row ID to update (extracted from the scanned row)
-    /// * `assignments` - Map of column indices to new values (uses value_idx, not column_idx)
+    /// * `updates` - The row ids (extracted from the scanned rows) and the new values (by value_idx, not column_idx)
     ///
     /// # Returns
-    /// Whether the update was successful.
-    pub fn update(
+    /// How many rows were there to update.
+    pub(crate) fn update_rows(
         &mut self,
         table_id: ObjectId,
-        row_id: &UInt64,
-        assignments: HashMap<usize, DataType>,
-    ) -> RuntimeResult<UpdateResult> {
-        let row_id_bytes = row_id.serialize()?;
-        let tid = self.ctx.tid();
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
+        updates: Vec<(RowId, HashMap<usize, DataType>)>,
+    ) -> RuntimeResult<usize> {
+        self.claim_rows(table_id, updates.iter().map(|(row_id, _)| *row_id))?;
 
-        // Get relation and schema
-        let relation = self
-            .ctx
-            .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
+        let relation = self.relation(table_id)?;
+        let schema = relation.schema();
+        let indexes = IndexTarget::of_table(&self.ctx, schema)?;
 
-        let schema = relation.schema().clone();
-        let root = relation.root();
+        let row_ids: Vec<RowId> = updates.iter().map(|(row_id, _)| *row_id).collect();
+        let existing = self.read_rows(&relation, &row_ids)?;
 
-        // Search for the tuple
-        let mut btree = self.ctx.build_tree_mut(root);
-        let position = match btree.search(&row_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(UpdateResult { updated: false }),
-        };
+        let mut changes = Vec::with_capacity(updates.len());
+        let mut images = Vec::with_capacity(updates.len());
+        for ((row_id, assignments), existing) in updates.into_iter().zip(existing) {
+            let Some((tuple, old_row)) = existing else {
+                continue;
+            };
 
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = btree.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
+            let mut new_row = old_row.as_slice().to_vec();
+            for (value, assigned) in &assignments {
+                let column = value + schema.num_keys();
+                *new_row
+                    .get_mut(column)
+                    .ok_or(RuntimeError::ColumnNotFound(column))? = assigned.clone();
+            }
+            let new_row = Row::from(new_row);
 
-        let Some(tuple) = existing_tuple else {
-            return Ok(UpdateResult { updated: false });
-        };
+            self.validate_row(&relation, &new_row)?;
+            images.push(self.log_images(schema, Some(&old_row), Some(&new_row))?);
 
-        // Get the old row for index maintenance
-        let old_row = btree
-            .get_row_at(position, &schema, &snapshot)?
-            .expect("Tuple should exist");
-
-        // Constraint validation goes here.
-        self.validate_update_constraints(
-            &relation,
-            old_row.as_slice(),
-            &assignments,
-            row_id.value(),
-        )?;
+            // Whoever tried to delete the row did not succeed.
+            let mut updated = tuple.clone();
+            if updated.is_deleted() {
+                updated.undelete();
+            }
+            updated.add_version_with(&assignments, tuple.xmin(), schema)?;
+            changes.push(RowChange {
+                row_id,
+                old: Some((tuple, old_row)),
+                new: Some((updated, new_row)),
+            });
+        }
 
-        // Apply the update
-        let mut updated_tuple = tuple.clone();
-        updated_tuple.add_version_with(&assignments, tuple.xmin(), &schema)?;
+        self.apply(|writes| {
+            // Entries come before rows and leave after them: whoever can see a row finds it.
+            let mut left = Vec::new();
+            let moving = self.ctx.moves_index_entries();
+            for index in indexes.iter().filter(|_| moving) {
+                let mut moved: HashMap<RowId, (Option<Row>, Option<Row>, TransactionId)> =
+                    HashMap::new();
+                for change in &changes {
+                    if let (Some((tuple, old)), Some((_, new))) = (&change.old, &change.new) {
+                        let (old, new) = (index.entry_of(old)?, index.entry_of(new)?);
+                        if old != new {
+                            moved.insert(change.row_id, (old, new, tuple.xmin()));
+                        }
+                    }
+                }
 
-        // Get the new row for index maintenance
-        let new_row = updated_tuple
-            .as_tuple_ref(&schema, &snapshot)
-            .expect("Updated tuple should be visible")
-            .to_row_with(&schema)?;
+                // The old entry of a row that is about to leave is not in the way of the others.
+                let leaving = |entry: &Row| {
+                    entry
+                        .last()
+                        .and_then(|row_id| row_id.as_big_u_int())
+                        .and_then(|row_id| moved.get(&row_id.value()))
+                        .is_some_and(|(old, _, _)| old.as_ref() == Some(entry))
+                };
 
-        // Log the update
-        self.logger.log_update(
-            table_id,
-            row_id.value(),
-            Box::from(&tuple),
-            Box::from(&updated_tuple),
-        )?;
+                for (_, new, xmin) in moved.values() {
+                    if let Some(entry) = new {
+                        index.add(&self.ctx, &relation, entry, *xmin, leaving, writes)?;
+                    }
+                }
+                left.extend(moved.into_values().filter_map(|(old, _, _)| Some((index, old?))));
+            }
 
-        // Update the main table
-        btree.update(root, updated_tuple, &schema)?;
-
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            Some(old_row),
-            Some(new_row),
-            Some(assignments),
-            &schema,
-            row_id.value(),
-        )?;
+            let root = relation.root();
+            for change in &changes {
+                if let (Some((previous, _)), Some((tuple, _))) = (&change.old, &change.new) {
+                    let mut table = self.ctx.build_tree_mut(root);
+                    table.update(root, tuple.clone(), schema)?;
+                    writes.replaced(root, schema, previous.clone());
+                }
+            }
+
+            for (index, entry) in left {
+                index.remove(&self.ctx, &entry, writes)?;
+            }
 
-        Ok(UpdateResult { updated: true })
+            for (change, (old, new)) in changes.iter().zip(images) {
+                self.logger.log_update(table_id, change.row_id, old, new)?;
+            }
+            Ok(())
+        })?;
+
+        Ok(changes.len())
     }
 
     /// Deletes a row identified by its row ID.
@@ -350,286 +671,91 @@ impl DmlExecutor {
     /// # Returns
     /// Whether the delete was successful.
     pub fn delete(&mut self, table_id: ObjectId, row_id: &UInt64) -> RuntimeResult<DeleteResult> {
-        let row_id_bytes = row_id.serialize()?;
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        // Get relation and schema
-        let relation = self
-            .ctx
-            .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
-        let schema = relation.schema().clone();
-        let root = relation.root();
-
-        // Search for the tuple
-        let mut btree = self.ctx.build_tree_mut(root);
-        let position = match btree.search(&row_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(DeleteResult { deleted: false }),
-        };
-
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = btree.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
-
-        let Some(tuple) = existing_tuple else {
-            return Ok(DeleteResult { deleted: false });
-        };
-
-        // Get the row for index maintenance
-        let old_row = btree
-            .get_row_at(position, &schema, &snapshot)?
-            .expect("Tuple should exist");
-
-        // Mark as deleted
-        let mut deleted_tuple = tuple.clone();
-        deleted_tuple.delete(snapshot.xid())?;
-
-        // Log the delete
-        self.logger
-            .log_delete(table_id, row_id.value(), Box::from(&tuple))?;
-
-        // Update the main table
-        btree.update(root, deleted_tuple, &schema)?;
-
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            Some(old_row),
-            None,
-            None,
-            &schema,
-            row_id.value(),
-        )?;
-
-        Ok(DeleteResult { deleted: true })
+        let deleted = self.delete_rows(table_id, &[row_id.value()])?;
+        Ok(DeleteResult {
+            deleted: deleted > 0,
+        })
     }
 
-    /// Builds a full row with default values, mapping input columns to schema positions.
-    fn build_full_row(
-        &self,
-        schema: &Schema,
-        columns: &[usize],
-        values: &Row,
-        row_id: UInt64,
-    ) -> RuntimeResult<Row> {
-        let num_cols = schema.num_columns();
-        let mut full_values: Vec<DataType> = vec![DataType::Null; num_cols];
-
-        // First column is always the row ID (primary key)
-        full_values[0] = DataType::BigUInt(row_id);
+    /// Deletes rows identified by their row ids. Returns how many there were.
+    pub(crate) fn delete_rows(
+        &mut self,
+        table_id: ObjectId,
+        row_ids: &[RowId],
+    ) -> RuntimeResult<usize> {
+        self.claim_rows(table_id, row_ids.iter().copied())?;
 
-        // Map input columns to schema positions with type casting
-        for (input_idx, &schema_col_idx) in columns.iter().enumerate() {
-            if input_idx < values.len() && schema_col_idx < num_cols {
-                let expected_type = schema
-                    .column(schema_col_idx)
-                    .ok_or(RuntimeError::ColumnNotFound(schema_col_idx))?
-                    .datatype();
-                let casted = values[input_idx].try_cast(expected_type)?;
-                full_values[schema_col_idx] = casted;
+        let relation = self.relation(table_id)?;
+        let schema = relation.schema();
+        let indexes = IndexTarget::of_table(&self.ctx, schema)?;
+        let existing = self.read_rows(&relation, row_ids)?;
+
+        let mut changes = Vec::with_capacity(row_ids.len());
+        let mut images = Vec::with_capacity(row_ids.len());
+        for (row_id, existing) in row_ids.iter().zip(existing) {
+            if let Some((tuple, row)) = existing {
+                images.push(self.log_images(schema, Some(&row), None)?.0);
+                changes.push(RowChange {
+                    row_id: *row_id,
+                    old: Some((tuple, row)),
+                    new: None,
+                });
             }
         }
 
-        Ok(Row::new(full_values.into_boxed_slice()))
-    }
-
-    /// Builds an index entry row from table values.
-    fn build_index_entry(
-        values: &[DataType],
-        index: &IndexHandle,
-        index_schema: &Schema,
-        row_id: RowId,
-    ) -> RuntimeResult<Row> {
-        let mut entry: Vec<DataType> = Vec::with_capacity(index_schema.num_keys() + 1);
+        self.apply(|writes| {
+            let root = relation.root();
+            for (tuple, row) in changes.iter().filter_map(|change| change.old.as_ref()) {
+                let mut deleted = tuple.clone();
+                deleted.delete(self.ctx.tid())?;
 
-        for col_idx in index.indexed_column_ids() {
-            let value = values
-                .get(*col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(*col_idx))?;
-            entry.push(value.clone());
-        }
+                let mut table = self.ctx.build_tree_mut(root);
+                table.update(root, deleted, schema)?;
+                drop(table);
+                writes.replaced(root, schema, tuple.clone());
 
-        // Append row ID as the last column
-        entry.push(DataType::BigUInt(UInt64(row_id)));
-
-        Ok(Row::new(entry.into_boxed_slice()))
-    }
-
-    /// Maintains secondary indexes.
-    fn maintain_secondary_indexes(
-        &mut self,
-        indexes: &[IndexHandle],
-        old_values: Option<Row>,
-        new_values: Option<Row>,
-        table_assignments: Option<HashMap<usize, DataType>>,
-        table_schema: &Schema,
-        row_id: RowId,
-    ) -> RuntimeResult<()> {
-        let old_values = old_values.map(|r| r.into_inner());
-        let new_values = new_values.map(|r| r.into_inner());
-
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let tid = self.ctx.tid();
-
-        // Determine which columns were modified
-        let modified_columns: Option<HashSet<usize>> = table_assignments
-            .clone()
-            .map(|c| c.keys().copied().collect());
-
-        for index in indexes {
-            let index_relation =
-                self.ctx
-                    .catalog()
-                    .get_relation(index.id(), &tree_builder, &snapshot)?;
-            let index_schema = index_relation.schema();
-            let index_root = index_relation.root();
-
-            if let Some(modified) = modified_columns.as_ref() {
-                // Skip indexes not affected by this update
-                let index_affected = index
-                    .indexed_column_ids()
-                    .iter()
-                    .any(|col| modified.contains(col));
-
-                if !index_affected {
-                    continue;
+                for index in &indexes {
+                    if let Some(entry) = index.entry_of(row)? {
+                        index.mark_deleted(&self.ctx, &entry, writes)?;
+                    }
                 }
             }
 
-            let mut index_btree = self.ctx.build_tree_mut(index_root);
-
-            match (
-                old_values.as_ref(),
-                new_values.as_ref(),
-                table_assignments.as_ref(),
-            ) {
-                // Insert operation
-                (None, Some(values), None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let existing =
-                            index_btree.get_tuple_at_unchecked(position, &index_schema)?;
-
-                        // If it is deleted we need to un-delete it
-                        if existing.is_deleted() {
-                            index_btree.update(index_root, index_tuple, index_schema)?;
-                        };
-
-                        // Otherwise there is nothing to do. Just keep the tuple there.
-                    } else {
-                        index_btree.insert(index_root, index_tuple, index_schema)?;
-                    }
-                }
-                // New values was set to [None] which means we are on a delete operation. Then we need to perform the maintenance in a different way.
-                // Delete operation
-                (Some(values), None, None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(position, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.delete(self.ctx.tid())?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    };
-                } // Update operation
-                (Some(old_values), Some(new_values), Some(assignments)) => {
-                    // Build the old index key for searching
-                    let old_index_row =
-                        Self::build_index_entry(&old_values, index, index_schema, row_id)?;
-                    let old_index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&old_index_row, tid)?;
-
-                    // Build new assignments for the index
-                    let index_assignments = self.build_index_assignments(
-                        &old_values,
-                        &assignments,
-                        index,
-                        index_schema,
-                    )?;
-
-                    // Search and update the index entry
-                    let mut index_btree = self.ctx.build_tree_mut(index_root);
-                    let search_result = index_btree.search_tuple(&old_index_tuple, index_schema)?;
-
-                    if let SearchResult::Found(pos) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(pos, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            let xmin = tuple.xmin();
-                            tuple.add_version_with(&index_assignments, xmin, index_schema)?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    }
-                }
-                _ => return Err(RuntimeError::InvalidStatement),
+            for (change, image) in changes.iter().zip(images) {
+                self.logger.log_delete(table_id, change.row_id, image)?;
             }
-        }
+            Ok(())
+        })?;
 
-        Ok(())
+        Ok(changes.len())
     }
 
-    /// Builds assignment map for an index based on table assignments.
-    fn build_index_assignments(
+    /// Builds a full row, mapping input columns to schema positions. Columns without an input
+    /// take their default.
+    fn build_full_row(
         &self,
-        old_values: &[DataType],
-        table_assignments: &HashMap<usize, DataType>,
-        index: &IndexHandle,
-        index_schema: &Schema,
-    ) -> RuntimeResult<HashMap<usize, DataType>> {
-        let mut index_assignments: HashMap<usize, DataType> = HashMap::new();
-
-        for (index_col_idx, table_col_idx) in index.indexed_column_ids().iter().enumerate() {
-            // Check if this table column was modified
-            let Some(new_value) = table_assignments.get(table_col_idx) else {
-                continue;
-            };
+        schema: &Schema,
+        columns: &[usize],
+        values: &Row,
+        row_id: RowId,
+    ) -> RuntimeResult<Row> {
+        let mut full_values: Vec<DataType> = Vec::with_capacity(schema.num_columns());
+        for column in schema.iter_columns() {
+            full_values.push(column.default_value()?);
+        }
 
-            // Validate type compatibility
-            let index_col_type = index_schema
-                .column(index_col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(index_col_idx))?
+        // Map input columns to schema positions with type casting
+        for (value, column) in values.iter().zip(columns) {
+            let expected_type = schema
+                .column(*column)
+                .ok_or(RuntimeError::ColumnNotFound(*column))?
                 .datatype();
-
-            if index_col_type != new_value.kind() {
-                return Err(RuntimeError::TypeError(
-                    TypeSystemError::UnexpectedDataType(new_value.kind()),
-                ));
-            }
-
-            index_assignments.insert(index_col_idx, new_value.clone());
+            full_values[*column] = value.try_cast(expected_type)?;
         }
 
-        Ok(index_assignments)
+        // First column is always the row ID (primary key)
+        full_values[0] = DataType::BigUInt(UInt64(row_id));
+        Ok(Row::from(full_values))
     }
 }
 
diff --git a/crates/axmos-db/src/runtime/ops/delete.rs b/crates/axmos-db/src/runtime/ops/delete.rs
index 1741f53..e3ff34f 100644
--- a/crates/axmos-db/src/runtime/ops/delete.rs
+++ b/crates/axmos-db/src/runtime/ops/delete.rs
@@ -63,17 +63,17 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read all the rows before writing any: the statement does not see its own writes.
+        let mut row_ids = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            row_ids.push(extract_row_id(&row)?.value());
+        }
+        self.child.close()?;
 
-            let row_id = extract_row_id(&row)?;
+        if !row_ids.is_empty() {
             let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-            let result = dml.delete(self.table_id, row_id)?;
-
-            if result.deleted {
-                self.stats.rows_produced += 1;
-            }
+            self.stats.rows_produced += dml.delete_rows(self.table_id, &row_ids)? as u64;
         }
 
         self.returned_result = true;
diff --git a/crates/axmos-db/src/runtime/ops/index_scan.rs b/crates/axmos-db/src/runtime/ops/index_scan.rs
index db3974c..685d3fa 100644
--- a/crates/axmos-db/src/runtime/ops/index_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/index_scan.rs
@@ -163,41 +163,36 @@ impl Executor for IndexScan {
                 .as_ref()
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.index_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_index_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
-
-            if maybe_row.is_none() {
+            let Some(entry) = tree.get_row_at(next_pos, &self.index_schema, &snapshot)? else {
+                continue;
+            };
+            if !self.evaluate_index_predicate(&entry)? {
                 continue;
             }
 
-            let found_row = maybe_row.unwrap();
-            let row_key_bytes = self.get_row_id_checked(&found_row)?.serialize()?;
+            let row_key_bytes = self.get_row_id_checked(&entry)?.serialize()?;
 
             // Build the table tree
             let mut table_tree = self.ctx.build_tree(self.table_root);
-            let actual_row_result =
-                table_tree.search(row_key_bytes.as_ref(), &self.table_schema)?;
-
-            if let SearchResult::Found(found_pos) = actual_row_result {
-                let actual_row = tree
-                    .get_row_at(found_pos, &self.table_schema, &snapshot)?
-                    .filter(|r| {
-                        self.evaluate_residual_predicate(r)
-                            .expect("Predicate evaluation failed")
-                    });
-
-                if actual_row.is_none() {
-                    continue;
-                }
+            let SearchResult::Found(found_pos) =
+                table_tree.search(row_key_bytes.as_ref(), &self.table_schema)?
+            else {
+                continue;
+            };
 
-                self.stats.rows_produced += 1;
-                return Ok(Some(actual_row.unwrap()));
-            } else {
+            let Some(row) = table_tree.get_row_at(found_pos, &self.table_schema, &snapshot)? else {
                 continue;
+            };
+
+            // The row may have another entry by now, which is the one to find it by.
+            let is_current = !self.ctx.moves_index_entries()
+                || (self.indexed_columns.iter().enumerate()).all(|(position, column)| {
+                    row.as_slice().get(*column) == Some(&entry[position])
+                });
+
+            if is_current && self.evaluate_residual_predicate(&row)? {
+                self.stats.rows_produced += 1;
+                return Ok(Some(row));
             }
         }
     }
diff --git a/crates/axmos-db/src/runtime/ops/insert.rs b/crates/axmos-db/src/runtime/ops/insert.rs
index 157dd6c..c0d92d4 100644
--- a/crates/axmos-db/src/runtime/ops/insert.rs
+++ b/crates/axmos-db/src/runtime/ops/insert.rs
@@ -64,14 +64,18 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read all the rows before writing any: the statement does not see its own writes.
+        let mut rows = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            rows.push(row);
+        }
+        self.child.close()?;
 
+        if !rows.is_empty() {
             let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-            dml.insert(self.table_id, &self.columns, &row)?;
-
-            self.stats.rows_produced += 1;
+            dml.insert_rows(self.table_id, &self.columns, &rows)?;
+            self.stats.rows_produced += rows.len() as u64;
         }
 
         self.returned_result = true;
diff --git a/crates/axmos-db/src/runtime/ops/seq_scan.rs b/crates/axmos-db/src/runtime/ops/seq_scan.rs
index 6d9f9f5..188c4d3 100644
--- a/crates/axmos-db/src/runtime/ops/seq_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/seq_scan.rs
@@ -98,19 +98,14 @@ impl Executor for SeqScan {
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
 
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.output_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
-
-            if maybe_row.is_none() {
+            let Some(row) = tree.get_row_at(next_pos, &self.table_schema, &snapshot)? else {
                 continue;
-            }
+            };
 
-            self.stats.rows_produced += 1;
-            return Ok(Some(maybe_row.unwrap()));
+            if self.evaluate_predicate(&row)? {
+                self.stats.rows_produced += 1;
+                return Ok(Some(row));
+            }
         }
     }
 
diff --git a/crates/axmos-db/src/runtime/ops/update.rs b/crates/axmos-db/src/runtime/ops/update.rs
index 283ac98..44f57e5 100644
--- a/crates/axmos-db/src/runtime/ops/update.rs
+++ b/crates/axmos-db/src/runtime/ops/update.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use crate::{
     ObjectId,
     runtime::{
@@ -8,7 +10,7 @@ use crate::{
     schema::Schema,
     sql::{binder::bounds::BoundExpression, planner::physical::PhysUpdateOp},
     storage::tuple::Row,
-    types::{DataType, UInt64},
+    types::{DataType, RowId, UInt64},
 };
 
 /// Running state for the Update operator.
@@ -52,8 +54,8 @@ where
         &self.stats
     }
 
-    /// Evaluates assignments and performs the update for a single row.
-    fn update_row(&mut self, row: &Row) -> RuntimeResult<bool> {
+    /// Evaluates the assignments for a single row.
+    fn evaluate_row(&self, row: &Row) -> RuntimeResult<(RowId, HashMap<usize, DataType>)> {
         // Get the schema to evaluate assignments
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot();
@@ -61,17 +63,11 @@ where
             .ctx
             .catalog()
             .get_relation(self.table_id, &tree_builder, &snapshot)?;
-        let schema = relation.schema().clone();
 
         // Extract row ID and evaluate assignments
         let row_id = extract_row_id(row)?;
-        let assignments = evaluate_assignments(self.assignments.iter(), row, &schema)?;
-
-        // Delegate to DML executor
-        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-        let result = dml.update(self.table_id, row_id, assignments)?;
-
-        Ok(result.updated)
+        let assignments = evaluate_assignments(self.assignments.iter(), row, relation.schema())?;
+        Ok((row_id.value(), assignments))
     }
 }
 
@@ -89,13 +85,17 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read all the rows before writing any: the statement does not see its own writes.
+        let mut updates = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            updates.push(self.evaluate_row(&row)?);
+        }
+        self.child.close()?;
 
-            if self.update_row(&row)? {
-                self.stats.rows_produced += 1;
-            }
+        if !updates.is_empty() {
+            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+            self.stats.rows_produced += dml.update_rows(self.table_id, updates)? as u64;
         }
 
         self.returned_result = true;
diff --git a/crates/axmos-db/src/runtime/validator.rs b/crates/axmos-db/src/runtime/validator.rs
index 0e1a0c3..df89728 100644
--- a/crates/axmos-db/src/runtime/validator.rs
+++ b/crates/axmos-db/src/runtime/validator.rs
@@ -3,15 +3,13 @@
 //! This module provides validation of database constraints (UNIQUE, NOT NULL, etc.)
 //! before INSERT and UPDATE operations are committed.
 
-use std::collections::HashSet;
-
 use crate::{
-    ObjectId, SerializationError, UInt64,
+    ObjectId, SerializationError,
     runtime::context::ThreadContext,
-    schema::{DatabaseItem, Schema, base::IndexHandle, catalog::CatalogError},
-    storage::tuple::{TupleError, TupleReader, TupleRef},
-    tree::bplustree::{BtreeError, SearchResult},
-    types::{DataType, RowId},
+    schema::{DatabaseItem, Schema, base::TableConstraint, catalog::CatalogError},
+    storage::tuple::TupleError,
+    tree::bplustree::BtreeError,
+    types::DataType,
 };
 
 use std::fmt;
@@ -112,34 +110,26 @@ impl<'a> ConstraintValidator<'a> {
         Ok(())
     }
 
+    /// Validates that the rows that foreign keys refer to exist. A NULL refers to nothing.
     pub(crate) fn validate_foreign_key_constraints(
         &self,
-        table_id: ObjectId,
         values: &[DataType],
     ) -> ValidationResult<()> {
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let ref_table_relation =
-            self.ctx
-                .catalog()
-                .get_relation(table_id, &tree_builder, &snapshot)?;
-        let schema = ref_table_relation.schema();
-        let infos = schema.get_foreign_keys_info();
-        for info in infos {
-            let found =
-                if let Some(handle) = schema.get_index_for_column_list(info.referenced_columns()) {
-                    self.search_index(&handle, values, true, &HashSet::new())?
-                } else {
-                    self.search_table(
-                        info.referenced_table(),
-                        info.referenced_columns(),
-                        values,
-                        true,
-                        &HashSet::new(),
-                    )?
-                };
+        let constraints = self.schema.constraints().unwrap_or_default();
+        for constraint in constraints {
+            let TableConstraint::ForeignKey { columns, info } = constraint else {
+                continue;
+            };
+
+            let target: Vec<DataType> = columns
+                .iter()
+                .filter_map(|column| values.get(*column).cloned())
+                .collect();
+            if target.iter().any(|value| value.is_null()) {
+                continue;
+            }
 
-            if !found {
+            if !self.search_table(info.referenced_table(), info.referenced_columns(), &target)? {
                 return Err(ValidationError::ForeignKeyViolation(DatabaseItem::Table(
                     self.table_name.to_string(),
                 )));
@@ -155,167 +145,32 @@ impl<'a> ConstraintValidator<'a> {
         table_id: ObjectId,
         target_columns: &[usize],
         values: &[DataType],
-        skip_nulls: bool,
-        excluded_set: &HashSet<RowId>,
     ) -> ValidationResult<bool> {
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot();
-        let table_relation = self
+        let table = self
             .ctx
             .catalog()
             .get_relation(table_id, &tree_builder, &snapshot)?;
-        let table_root = table_relation.root();
 
-        // Search in the table
-        let mut table_btree = self.ctx.build_tree(table_root);
+        let mut table_btree = self.ctx.build_tree(table.root());
         if table_btree.is_empty()? {
             return Ok(false);
         }
 
         for position in table_btree.iter_forward()? {
-            if let Ok(pos) = position {
-                if let Some(row) = table_btree.get_row_at(pos, self.schema, &snapshot)? {
-                    let Some(DataType::BigUInt(UInt64(value))) = row.first() else {
-                        return Err(ValidationError::Btree(BtreeError::Other(
-                            "tables must start with row id".to_string(),
-                        )));
-                    };
-
-                    if excluded_set.contains(&value) {
-                        continue;
-                    };
-
-                    let all_match = target_columns.iter().enumerate().all(|(i, &col_idx)| {
-                        let row_value = &row[col_idx];
-                        let target_value = &values[i];
-
-                        if skip_nulls && (row_value.is_null() || target_value.is_null()) {
-                            false
-                        } else {
-                            row_value == target_value
-                        }
-                    });
-
-                    if all_match {
-                        return Ok(true);
-                    }
-                }
-            }
-        }
-
-        Ok(false)
-    }
-
-    /// Searches for an entry on an index. Returns true if the entry is found.
-    pub(crate) fn search_index(
-        &self,
-        index: &IndexHandle,
-        values: &[DataType],
-        skip_nulls: bool,
-        excluded_set: &HashSet<RowId>,
-    ) -> ValidationResult<bool> {
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let index_relation =
-            self.ctx
-                .catalog()
-                .get_relation(index.id(), &tree_builder, &snapshot)?;
-
-        let index_schema = index_relation.schema();
-        let index_root = index_relation.root();
-
-        // Build the key from the indexed columns
-        let mut key_bytes: Vec<u8> = Vec::new();
-        let mut has_null = false;
-
-        for &col_idx in index.indexed_column_ids() {
-            if col_idx < values.len() {
-                // In SQL, NULL values don't violate UNIQUE constraints
-                // (NULL != NULL, so multiple NULLs are allowed)
-                if values[col_idx].is_null() && skip_nulls {
-                    has_null = true;
-                    break;
-                }
-                let serialized = values[col_idx].serialize()?;
-                key_bytes.extend_from_slice(&serialized);
-            }
-        }
-
-        // Skip uniqueness check if any indexed column is NULL
-        if has_null && skip_nulls {
-            return Ok(false);
-        }
-
-        // Search in the index
-        let mut index_btree = self.ctx.build_tree(index_root);
-
-        if let SearchResult::Found(pos) = index_btree.search(&key_bytes, index_schema)? {
-            // Found a matching key - need to check if it's VISIBLE to our snapshot
-            // If the tuple was deleted and the delete is visible, it's not a conflict
-            let tuple_reader = TupleReader::from_schema(index_schema);
-
-            let is_found = index_btree.with_cell_at(pos, |bytes| {
-                // Parse the tuple for our snapshot - this respects MVCC visibility
-                match tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    Some(layout) => {
-                        // Tuple is visible! Check if it's the row we're excluding (for updates)
-                        let tuple_ref = TupleRef::new(bytes, layout);
-
-                        // row_id is the first value in the index
-                        // Index layout: [key1, key2, ...] [row_id]
-                        //               ^-- keys --^      ^-- values --^
-                        if let Ok(row_id_ref) = tuple_ref.value_with(0, index_schema) {
-                            if let Some(found_row_id) = row_id_ref.to_owned() {
-                                if let Some(uid) = found_row_id.as_big_u_int() {
-                                    if excluded_set.contains(&uid.value()) {
-                                        // This is the same row we're updating, not a conflict
-                                        return Ok::<bool, TupleError>(false);
-                                    }
-                                }
-                            }
-                        }
-
-                        // Different row or no exclusion (conflict found)
-                        Ok::<bool, TupleError>(true)
-                    }
-                    None => {
-                        // Tuple is NOT visible (deleted or not yet committed)
-                        // No conflict
-                        Ok::<bool, TupleError>(false)
-                    }
-                }
-            })??;
-
-            return Ok(is_found);
-        }
-
-        Ok(false)
-    }
-
-    /// Validates UNIQUE constraints by checking indexes.
-    pub(crate) fn validate_unique_constraints(
-        &self,
-        values: &[DataType],
-        skip_nulls: bool,
-        excluded_set: HashSet<RowId>,
-    ) -> ValidationResult<()> {
-        let indexes = self.schema.get_indexes();
-
-        // For each of the indexes, check if we can build a new entry with the
-        for index in indexes {
-            let is_conflict = self.search_index(&index, values, skip_nulls, &excluded_set)?;
-            if is_conflict {
-                let col_names: Vec<&str> = index
-                    .indexed_column_ids()
+            let row = table_btree.get_row_at(position?, table.schema(), &snapshot)?;
+            let matches = row.is_some_and(|row| {
+                target_columns
                     .iter()
-                    .filter_map(|&idx| self.schema.column(idx).map(|c| c.name()))
-                    .collect();
-                return Err(ValidationError::UniqueConstraintViolated(
-                    DatabaseItem::Column(col_names.join(","), self.table_name.to_string()),
-                ));
+                    .zip(values)
+                    .all(|(column, value)| row.as_slice().get(*column) == Some(value))
+            });
+            if matches {
+                return Ok(true);
             }
         }
 
-        Ok(())
+        Ok(false)
     }
 }
diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index a8c994e..440bb08 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -159,6 +159,47 @@ impl Schema {
         self.reindex();
     }
 
+    /// Adds a constraint to a table unless it is already there.
+    pub(crate) fn push_constraint(&mut self, constraint: TableConstraint) {
+        if let Some(constraints) = self.table_constraints.as_mut()
+            && !constraints.contains(&constraint)
+        {
+            constraints.push(constraint);
+        }
+    }
+
+    /// Removes a column of a table, with the constraints and indexes that it is part of.
+    /// Returns the ids of the indexes. The columns after it move one place.
+    pub(crate) fn drop_column(&mut self, index: usize) -> Vec<ObjectId> {
+        let shift = |columns: &mut Vec<usize>| {
+            for column in columns.iter_mut().filter(|column| **column > index) {
+                *column -= 1;
+            }
+        };
+
+        if let Some(constraints) = self.table_constraints.as_mut() {
+            constraints.retain(|constraint| !constraint.columns().contains(&index));
+            for constraint in constraints {
+                shift(constraint.columns_mut());
+            }
+        }
+
+        let mut dropped = Vec::new();
+        if let Some(indexes) = self.table_indexes.as_mut() {
+            indexes.retain(|id, columns| {
+                let affected = columns.contains(&index);
+                if affected {
+                    dropped.push(*id);
+                }
+                !affected
+            });
+            indexes.values_mut().for_each(shift);
+        }
+
+        self.remove_column_unchecked(index);
+        dropped
+    }
+
     pub(crate) fn new_empty() -> Self {
         Self::new_table_with_num_keys(vec![], 0)
     }
@@ -396,7 +437,7 @@ impl Schema {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Schema, RkyvError>(&aligned)?;
         Ok(schema)
@@ -409,7 +450,7 @@ impl Schema {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Schema, RkyvError>(&aligned)?;
         Ok(schema)
@@ -472,6 +513,21 @@ pub(crate) enum TableConstraint {
     Unique(Vec<usize>), // Unique set of column ids in the schema.
 }
 impl TableConstraint {
+    /// The columns of the table that the constraint is about.
+    pub(crate) fn columns(&self) -> &[usize] {
+        match self {
+            Self::PrimaryKey(columns) | Self::Unique(columns) => columns,
+            Self::ForeignKey { columns, .. } => columns,
+        }
+    }
+
+    fn columns_mut(&mut self) -> &mut Vec<usize> {
+        match self {
+            Self::PrimaryKey(columns) | Self::Unique(columns) => columns,
+            Self::ForeignKey { columns, .. } => columns,
+        }
+    }
+
     /// Serializes an schema to a blob object
     pub fn to_blob(&self) -> SerializationResult<Blob> {
         let bytes = to_bytes::<RkyvError>(self)?;
@@ -485,7 +541,7 @@ impl TableConstraint {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -498,7 +554,7 @@ impl TableConstraint {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -540,7 +596,7 @@ impl ForeignKeyInfo {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -553,7 +609,7 @@ impl ForeignKeyInfo {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -620,6 +676,17 @@ impl Column {
         DataTypeKind::from_repr(self.dtype).unwrap_or(DataTypeKind::Null)
     }
 
+    /// The value of the column in rows that do not give one.
+    pub(crate) fn default_value(&self) -> SerializationResult<DataType> {
+        match &self.default {
+            Some(bytes) => {
+                let (value, _) = self.datatype().deserialize(bytes, 0)?;
+                Ok(value.to_owned().unwrap_or(DataType::Null))
+            }
+            None => Ok(DataType::Null),
+        }
+    }
+
     pub fn write_to(&self, bytes: &mut [u8], cursor: usize) -> SerializationResult<usize> {
         let blob = self.to_blob()?;
         blob.write_to(bytes, cursor)
@@ -649,7 +716,7 @@ impl Column {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -662,7 +729,7 @@ impl Column {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index ce032af..1583218 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -3,15 +3,20 @@ use crate::{
     core::SerializableType,
     io::pager::{BtreeBuilder, SharedPager},
     make_shared_readonly,
-    multithreading::coordinator::Snapshot,
+    multithreading::coordinator::{
+        Snapshot, TransactionCoordinator, TransactionError, TransactionState,
+    },
     runtime::{RuntimeError, context::TransactionLogger},
     schema::{Schema, base::SchemaError},
-    storage::tuple::{Tuple, TupleBuilder, TupleError, TupleReader,Row,  TupleRef},
+    storage::{
+        core::traits::{BtreeMetadata, BtreeOps},
+        tuple::{Row, Tuple, TupleBuilder, TupleError, TupleReader, TupleRef},
+    },
     tree::{
-        accessor::BtreePagePosition,
-        bplustree::{BtreeError, SearchResult},
+        accessor::{BtreePagePosition, BtreeWriteAccessor, PositionStack},
+        bplustree::{Btree, BtreeError, SearchResult},
     },
-    types::{Blob, DataType, DataTypeRef, PageId},
+    types::{Blob, DataType, DataTypeRef, LogicalId, PageId, RowId},
 };
 
 use super::{
@@ -21,7 +26,12 @@ use super::{
     stats::{ColumnStats, StatsCollector},
 };
 
-use std::collections::HashSet;
+use parking_lot::Mutex;
+use std::collections::{HashMap, HashSet};
+use std::sync::{
+    OnceLock,
+    atomic::{AtomicBool, Ordering},
+};
 use std::fmt::{Display, Formatter, Result as FmtResult};
 use std::time::{SystemTime, UNIX_EPOCH};
 
@@ -33,6 +43,8 @@ pub enum CatalogError {
     TupleError(TupleError),
     Serialization(SerializationError),
     Schema(SchemaError),
+    /// Another transaction is changing, or has meanwhile changed, the object
+    Conflict(TransactionError),
     Other(String),
 }
 
@@ -45,11 +57,18 @@ impl Display for CatalogError {
             Self::TupleError(err) => write!(f, "Tuple error {err}"),
             Self::Serialization(err) => write!(f, "serialization error {err}"),
             Self::Schema(err) => write!(f, "schema error {err}"),
+            Self::Conflict(err) => write!(f, "{err}"),
             Self::Other(string) => write!(f, "{string}"),
         }
     }
 }
 
+impl From<TransactionError> for CatalogError {
+    fn from(value: TransactionError) -> Self {
+        Self::Conflict(value)
+    }
+}
+
 impl From<SchemaError> for CatalogError {
     fn from(value: SchemaError) -> Self {
         Self::Schema(value)
@@ -112,10 +131,24 @@ impl VacuumStats {
 
 make_shared_readonly!(SharedCatalog, Catalog);
 
+/// What to change in the entry of a relation.
+#[derive(Default)]
+pub(crate) struct RelationChange {
+    pub(crate) schema: Option<Schema>,
+    pub(crate) root: Option<PageId>,
+    pub(crate) stats: Option<Stats>,
+}
+
 pub struct Catalog {
     meta_table: PageId,
     meta_index: PageId,
     pager: SharedPager,
+    /// Knows what became of the transactions that wrote the entries.
+    coordinator: OnceLock<TransactionCoordinator>,
+    /// Whether there may be entries that no transaction needs.
+    has_garbage: AtomicBool,
+    /// Held while an entry is read in order to be replaced.
+    entries: Mutex<()>,
 }
 
 impl Catalog {
@@ -124,6 +157,35 @@ impl Catalog {
             meta_table,
             meta_index,
             pager,
+            coordinator: OnceLock::new(),
+            has_garbage: AtomicBool::new(true),
+            entries: Mutex::new(()),
+        }
+    }
+
+    /// Tells the catalog who coordinates the transactions that use it.
+    pub(crate) fn set_coordinator(&self, coordinator: TransactionCoordinator) {
+        let _ = self.coordinator.set(coordinator);
+    }
+
+    pub(crate) fn coordinator(&self) -> Option<&TransactionCoordinator> {
+        self.coordinator.get()
+    }
+
+    /// What became of a transaction. Without a coordinator, as far as the snapshot knows.
+    pub(crate) fn state_of(&self, xid: TransactionId, snapshot: &Snapshot) -> TransactionState {
+        if xid == snapshot.xid() {
+            return TransactionState::Active;
+        }
+        if snapshot.is_transaction_aborted(xid) {
+            return TransactionState::Aborted;
+        }
+        match self.coordinator() {
+            Some(coordinator) => coordinator
+                .transaction_state(xid)
+                .unwrap_or(TransactionState::Committed),
+            None if snapshot.is_committed_before_snapshot(xid) => TransactionState::Committed,
+            None => TransactionState::Active,
         }
     }
 
@@ -319,7 +381,15 @@ impl Catalog {
                 continue;
             };
 
-            self.update_relation(id, None, None, Some(stats), &builder, &snapshot)?;
+            let change = RelationChange {
+                stats: Some(stats),
+                ..Default::default()
+            };
+            match self.update_relation(id, change, builder, snapshot) {
+                // Somebody is working on it. The statistics can wait.
+                Err(CatalogError::Conflict(_)) => {}
+                other => other?,
+            }
         }
 
         Ok(())
@@ -471,161 +541,251 @@ impl Catalog {
         let id = self.bind_relation(name, builder, snapshot)?;
         self.get_relation(id, builder, snapshot)
     }
-    /// Updates the metadata of a given relation using the provided RcPageAccessor.
-    pub(crate) fn update_relation(
+    /// Checks that the transaction of the snapshot may change an entry of the catalog: no other
+    /// transaction is changing it or has changed it since the snapshot was taken.
+    fn check_entry(
         &self,
-        relation_id: ObjectId,
-        new_row_id: Option<u64>,
-        new_schema: Option<Schema>,
-        new_stats: Option<Stats>,
-        builder: &BtreeBuilder,
+        id: ObjectId,
+        tuple: &Tuple,
         snapshot: &Snapshot,
     ) -> CatalogResult<()> {
-        let schema = meta_table_schema();
-        let mut meta_table = builder.build_tree_mut(self.meta_table);
-        let relation_id_bytes = UInt64(relation_id).serialize()?;
-        let mut changes = std::collections::HashMap::new();
+        let changed_by = |xid: TransactionId| {
+            xid != snapshot.xid()
+                && !snapshot.is_committed_before_snapshot(xid)
+                && self.state_of(xid, snapshot) != TransactionState::Aborted
+        };
 
-        if let Some(id) = new_row_id {
-            let col_id = schema.bind_value("next_row_id")?;
-            changes.insert(col_id, DataType::BigUInt(UInt64::from(id)));
+        if changed_by(tuple.xmin()) || tuple.xmax().is_some_and(changed_by) {
+            let entry = LogicalId::catalog_entry(id);
+            return Err(TransactionError::WriteWriteConflict(snapshot.xid(), entry).into());
         }
+        Ok(())
+    }
 
-        if let Some(table_schema) = new_schema {
-            let col_id = schema.bind_value("schema")?;
-            changes.insert(col_id, DataType::Blob(table_schema.to_blob()?));
-        }
+    /// Reads the entry of a relation, in all its versions.
+    fn get_entry(
+        &self,
+        id: ObjectId,
+        meta_table: &mut Btree<BtreeWriteAccessor>,
+    ) -> CatalogResult<Tuple> {
+        let schema = meta_table_schema();
+        let key = UInt64(id).serialize()?;
+        let result = meta_table.search(&key, &schema)?;
+        meta_table.accessor_mut()?.clear_traversal();
 
-        if let Some(table_stats) = new_stats {
-            let col_id = schema.bind_value("stats")?;
-            changes.insert(col_id, DataType::Blob(table_stats.to_blob()?));
+        match result {
+            SearchResult::Found(pos) => Ok(meta_table.get_tuple_at_unchecked(pos, &schema)?),
+            SearchResult::NotFound(_) => Err(CatalogError::TableNotFound(id)),
         }
+    }
 
-        let position = match meta_table.search(&relation_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(()),
-        };
+    /// Takes row ids of a table. They are never handed out again, whatever becomes of the transaction.
+    pub(crate) fn allocate_row_ids(
+        &self,
+        id: ObjectId,
+        count: u64,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<RowId> {
+        let _entries = self.entries.lock();
+        let schema = meta_table_schema();
+        let column = schema.bind_value("next_row_id")?;
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
 
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = meta_table.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
+        let mut entry = self.get_entry(id, &mut meta_table)?;
+        self.check_entry(id, &entry, snapshot)?;
 
-        let Some(mut tuple) = existing_tuple else {
-            return Ok(());
-        };
+        let first = Self::next_row_id_of(&entry, &schema)?;
+        let next = first
+            .checked_add(count)
+            .ok_or(CatalogError::Other("the table ran out of row ids".to_string()))?;
 
-        let xmin = tuple.xmin();
-        tuple.add_version_with(&changes, xmin, &schema)?;
-        let result = meta_table.update(self.meta_table, tuple, &schema)?;
+        let counter = HashMap::from([(column, DataType::BigUInt(UInt64(next)))]);
+        entry.overwrite_with(&counter, &schema)?;
+        meta_table.update(self.meta_table, entry, &schema)?;
+        Ok(first)
+    }
 
+    /// Makes sure that a row id is not handed out any more.
+    pub(crate) fn reserve_row_id(
+        &self,
+        id: ObjectId,
+        row_id: RowId,
+        builder: &BtreeBuilder,
+    ) -> CatalogResult<()> {
+        let _entries = self.entries.lock();
+        let schema = meta_table_schema();
+        let column = schema.bind_value("next_row_id")?;
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
+
+        let mut entry = self.get_entry(id, &mut meta_table)?;
+        if Self::next_row_id_of(&entry, &schema)? > row_id {
+            return Ok(());
+        }
+        let next = row_id.saturating_add(1);
+        let counter = HashMap::from([(column, DataType::BigUInt(UInt64(next)))]);
+        entry.overwrite_with(&counter, &schema)?;
+        meta_table.update(self.meta_table, entry, &schema)?;
         Ok(())
     }
 
-    /// Removes a given relation using the provided
-    /// Cascades the removal if required.
-    pub(crate) fn remove_relation(
+    /// The counter of row ids is the one of the newest version, it does not belong to any of them.
+    fn next_row_id_of(entry: &Tuple, schema: &Schema) -> CatalogResult<RowId> {
+        let row = entry.as_tuple_ref_with(schema).to_row_with(schema)?;
+        let column = schema.bind_column("next_row_id")?;
+        match &row[column] {
+            DataType::BigUInt(next) => Ok(next.value()),
+            _ => Err(CatalogError::Other("not a table".to_string())),
+        }
+    }
+
+    /// Checks that the rows of a relation may be written by the transaction of the snapshot.
+    pub(crate) fn check_writable(
         &self,
-        rel: Relation,
+        id: ObjectId,
         builder: &BtreeBuilder,
         snapshot: &Snapshot,
-        cascade: bool,
     ) -> CatalogResult<()> {
-        if cascade {
-            let schema = rel.schema();
-            let dependants = schema.get_dependants();
-
-            // Recursively remove object dependants
-            for dep in dependants {
-                let relation = self.get_relation(dep, builder, snapshot)?;
-                self.remove_relation(relation, builder, snapshot, cascade)?;
-            }
-        };
-
-        // First, deallocate the relation.
-        // Deallocate the relation.
-      {
-            let mut tree = builder.build_tree_mut(rel.root());
-            tree.dealloc()?;
+        let entry_id = LogicalId::catalog_entry(id);
+        if let Some(coordinator) = self.coordinator()
+            && coordinator.is_claimed_by_other(snapshot.xid(), entry_id)
+        {
+            return Err(TransactionError::WriteWriteConflict(snapshot.xid(), entry_id).into());
         }
 
-        // Obtain the relation metadata
-        let relation_id = rel.object_id();
-        let relation_id_bytes = UInt64(relation_id).serialize()?;
-        let relation_name_bytes = Blob::from(rel.name()).serialize()?;
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
+        let entry = self.get_entry(id, &mut meta_table)?;
+        self.check_entry(id, &entry, snapshot)
+    }
 
-        // First remove the relation from the meta table
-        let schema = meta_table_schema();
-        let Some((mut existing_tuple, old_row)) = ({
-            // First remove the relation from the meta table
+    /// Takes a relation for the transaction of the snapshot, so that no other transaction writes
+    /// to it until this one finishes.
+    pub(crate) fn claim_relation(
+        &self,
+        id: ObjectId,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let entry_id = LogicalId::catalog_entry(id);
+        if let Some(coordinator) = self.coordinator() {
+            coordinator.claim_write(snapshot.xid(), entry_id)?;
+            if coordinator.has_other_writers(snapshot.xid(), id) {
+                return Err(TransactionError::WriteWriteConflict(snapshot.xid(), entry_id).into());
+            }
+        }
 
-            let mut meta_table = builder.build_tree(self.meta_table);
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
+        let entry = self.get_entry(id, &mut meta_table)?;
+        self.check_entry(id, &entry, snapshot)
+    }
 
-            let position = match meta_table.search(&relation_id_bytes, &schema)? {
-                SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
-            };
+    /// Changes the metadata of a relation, for the transaction of the snapshot.
+    pub(crate) fn update_relation(
+        &self,
+        relation_id: ObjectId,
+        change: RelationChange,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let _entries = self.entries.lock();
+        let schema = meta_table_schema();
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
 
-            // Read the existing tuple
-            let tuple_reader = TupleReader::from_schema(&schema);
-            meta_table.with_cell_at(position, |bytes| {
-                if let Some(layout) = tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    let tuple_ref = TupleRef::new(bytes, layout);
-                    let row = tuple_ref.to_row_with(&schema)?;
-                    Ok::<Option<(Tuple, Row)>, TupleError>(Some((Tuple::from_slice_unchecked(bytes)?, row)))
-                } else {
-                    Ok(None)
-                }
-            })??
-        })
-        else {
-            return Ok(())
-        };
+        let entry = self.get_entry(relation_id, &mut meta_table)?;
+        self.check_entry(relation_id, &entry, snapshot)?;
 
+        // What the transaction sees, which is not the newest version if that one was aborted.
+        let visible = entry
+            .as_tuple_ref(&schema, snapshot)
+            .ok_or(CatalogError::TableNotFound(relation_id))?;
+        let mut target = visible.to_row_with(&schema)?.into_inner();
 
-        existing_tuple.delete(snapshot.xid())?;
+        if let Some(root) = change.root {
+            let column = schema.bind_column("root_page")?;
+            target[column] = DataType::BigUInt(UInt64(root));
+        }
 
-        {
-            let mut meta_table = builder.build_tree_mut(self.meta_table);
-            meta_table.update(self.meta_table, existing_tuple, &schema)?;
+        if let Some(table_schema) = change.schema {
+            let column = schema.bind_column("schema")?;
+            target[column] = DataType::Blob(table_schema.to_blob()?);
         }
 
-        // Now do the same with the meta index.
-        let schema = meta_index_schema();
-        let Some((mut existing_tuple, old_row)) = ({
-            // First remove the relation from the meta table
+        if let Some(table_stats) = change.stats {
+            let column = schema.bind_column("stats")?;
+            target[column] = DataType::Blob(table_stats.to_blob()?);
+        }
 
-            let mut meta_index = builder.build_tree(self.meta_index);
+        let newest = entry.as_tuple_ref_with(&schema).to_row_with(&schema)?;
+        let counter = schema.bind_column("next_row_id")?;
+        let modified: HashMap<usize, DataType> = (schema.num_keys()..schema.num_columns())
+            .filter(|column| *column != counter && target[*column] != newest[*column])
+            .map(|column| (column - schema.num_keys(), target[column].clone()))
+            .collect();
 
-            let position = match meta_index.search(&relation_name_bytes, &schema)? {
-                SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
-            };
+        let mut updated = entry.clone();
+        if modified.is_empty() {
+            return Ok(());
+        }
+        updated.add_version_with(&modified, snapshot.xid(), &schema)?;
+        meta_table.update(self.meta_table, updated, &schema)?;
+        self.has_garbage.store(true, Ordering::SeqCst);
+        Ok(())
+    }
 
-            // Read the existing tuple
-            let tuple_reader = TupleReader::from_schema(&schema);
-            meta_index.with_cell_at(position, |bytes| {
-                if let Some(layout) = tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    let tuple_ref = TupleRef::new(bytes, layout);
-                    let row = tuple_ref.to_row_with(&schema)?;
-                    Ok::<Option<(Tuple, Row)>, TupleError>(Some((Tuple::from_slice_unchecked(bytes)?, row)))
-                } else {
-                    Ok(None)
-                }
-            })??
-        })
-        else {
-            return Ok(())
-        };
+    /// Removes a given relation using the provided
+    ///
+    /// The indexes of a table go with it. Nothing is freed before no transaction needs it. See [Self::reclaim].
+    pub(crate) fn remove_relation(
+        &self,
+        rel: Relation,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+        cascade: bool,
+    ) -> CatalogResult<()> {
+        let _entries = self.entries.lock();
+        self.remove_entry(rel, builder, snapshot)
+    }
 
+    fn remove_entry(
+        &self,
+        rel: Relation,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        // Take the table first: its entry says whether another transaction is working on it.
+        let relation_id = rel.object_id();
+        {
+            let schema = meta_table_schema();
+            let mut meta_table = builder.build_tree_mut(self.meta_table);
 
-        existing_tuple.delete(snapshot.xid())?;
+            let mut entry = self.get_entry(relation_id, &mut meta_table)?;
+            self.check_entry(relation_id, &entry, snapshot)?;
+            if entry.as_tuple_ref(&schema, snapshot).is_none() {
+                return Err(CatalogError::TableNotFound(relation_id));
+            }
+            entry.delete(snapshot.xid())?;
+            meta_table.update(self.meta_table, entry, &schema)?;
+        }
+        self.has_garbage.store(true, Ordering::SeqCst);
 
+        // Now do the same with the meta index, unless the name belongs to something else by now.
         {
+            let schema = meta_index_schema();
             let mut meta_index = builder.build_tree_mut(self.meta_index);
-            meta_index.update(self.meta_index, existing_tuple, &schema)?;
+            if let Some(mut entry) = Self::get_name(rel.name(), &mut meta_index)?
+                && Self::object_of_name(&entry, &schema)? == relation_id
+            {
+                entry.delete(snapshot.xid())?;
+                meta_index.update(self.meta_index, entry, &schema)?;
+            }
+        }
+
+        if rel.is_table() {
+            for index in rel.get_indexes() {
+                if let Ok(relation) = self.get_relation(index.id(), builder, snapshot) {
+                    self.remove_entry(relation, builder, snapshot)?;
+                }
+            }
         }
 
         Ok(())
@@ -645,6 +805,32 @@ impl Catalog {
         self.remove_relation(rel, builder, snapshot, cascade)
     }
 
+    /// Reads the entry of a name in the meta index, in all its versions.
+    fn get_name(
+        name: &str,
+        meta_index: &mut Btree<BtreeWriteAccessor>,
+    ) -> CatalogResult<Option<Tuple>> {
+        let schema = meta_index_schema();
+        let key = Blob::from(name);
+        let result = meta_index.search(key.as_ref(), &schema)?;
+        meta_index.accessor_mut()?.clear_traversal();
+
+        match result {
+            SearchResult::Found(pos) => Ok(Some(meta_index.get_tuple_at_unchecked(pos, &schema)?)),
+            SearchResult::NotFound(_) => Ok(None),
+        }
+    }
+
+    fn object_of_name(entry: &Tuple, schema: &Schema) -> CatalogResult<ObjectId> {
+        let row = entry.as_tuple_ref_with(schema).to_row_with(schema)?;
+        match &row[1] {
+            DataType::BigUInt(id) => Ok(id.value()),
+            _ => Err(CatalogError::Other(
+                "Invalid object_id type in meta index row".to_string(),
+            )),
+        }
+    }
+
     /// Stores a new relation in the meta table.
     pub(crate) fn store_relation(
         &self,
@@ -652,19 +838,38 @@ impl Catalog {
         builder: &BtreeBuilder,
         transaction_id: TransactionId,
     ) -> CatalogResult<()> {
+        let _entries = self.entries.lock();
         // Store the relation in the meta index.
         let schema = meta_index_schema();
+        {
+            let mut tree = builder.build_tree_mut(self.meta_index);
+            let tuple = Self::relation_as_meta_index_tuple(&relation, transaction_id)?;
+
+            // The name is free if whoever had it is gone.
+            if let Some(coordinator) = self.coordinator()
+                && let Some(existing) = Self::get_name(relation.name(), &mut tree)?
+            {
+                let state = |xid| {
+                    coordinator
+                        .transaction_state(xid)
+                        .unwrap_or(TransactionState::Committed)
+                };
+                let gone = state(existing.xmin()) == TransactionState::Aborted
+                    || existing.xmax().is_some_and(|xid| {
+                        xid == transaction_id || state(xid) == TransactionState::Committed
+                    });
+
+                if !gone {
+                    let entry = LogicalId::catalog_entry(relation.object_id());
+                    return Err(TransactionError::WriteWriteConflict(transaction_id, entry).into());
+                }
+            }
 
-        // Store the relation in the meta-table
-        let mut tree = builder.build_tree_mut(self.meta_index);
-
-        let tuple = Self::relation_as_meta_index_tuple(&relation, transaction_id)?;
-
-        // Will replace existing relation if it exists.
-        tree.upsert(self.meta_index, tuple, &schema)?;
+            tree.upsert(self.meta_index, tuple, &schema)?;
+        }
+        self.has_garbage.store(true, Ordering::SeqCst);
 
         let schema = meta_table_schema();
-        let object_id = relation.object_id();
 
         // Store the relation in the meta-table
         let mut tree = builder.build_tree_mut(self.meta_table);
@@ -684,27 +889,219 @@ impl Catalog {
         snapshot: &Snapshot,
     ) -> CatalogResult<ObjectId> {
         let schema = meta_index_schema();
-        let mut meta_index = builder.build_tree(self.meta_index);
-        let name = Blob::from(name);
-        let result = meta_index.search(name.as_ref(), &schema)?;
+        {
+            let mut meta_index = builder.build_tree(self.meta_index);
+            let key = Blob::from(name);
 
-        match result {
-            SearchResult::Found(pos) => {
-                let row = meta_index
-                    .get_row_at(pos, &schema, snapshot)?
-                    .ok_or(CatalogError::InvalidObjectName(name.to_string()))?;
+            if let SearchResult::Found(pos) = meta_index.search(key.as_ref(), &schema)?
+                && let Some(row) = meta_index.get_row_at(pos, &schema, snapshot)?
+                && let DataType::BigUInt(id) = &row[1]
+            {
+                return Ok(id.value());
+            }
+        }
 
-                let object_id = match &row[1] {
-                    DataType::BigUInt(v) => v.value() as ObjectId,
-                    _ => panic!("Invalid object_id type in meta index row"),
-                };
+        // The index has one entry for each name. If that one is not for this transaction, an
+        // older relation with the same name may be.
+        self.find_relation(name, builder, snapshot)?
+            .ok_or(CatalogError::InvalidObjectName(name.to_string()))
+    }
 
-                return Ok(object_id);
+    /// Looks for the visible relation with the given name in the meta table.
+    fn find_relation(
+        &self,
+        name: &str,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<Option<ObjectId>> {
+        let schema = meta_table_schema();
+        let mut meta_table = builder.build_tree(self.meta_table);
+        if meta_table.is_empty()? {
+            return Ok(None);
+        }
+
+        for position in meta_table.iter_forward()? {
+            if let Some(row) = meta_table.get_row_at(position?, &schema, snapshot)? {
+                let relation = Relation::from_meta_table_row(row);
+                if relation.name() == name {
+                    return Ok(Some(relation.object_id()));
+                }
             }
-            SearchResult::NotFound(_) => {
-                return Err(CatalogError::InvalidObjectName(name.to_string()));
+        }
+        Ok(None)
+    }
+
+    /// Frees what no transaction can see any more of the catalog: the trees of dropped relations,
+    /// of relations whose creation was rolled back, and of the versions that ALTER TABLE has
+    /// replaced.
+    ///
+    /// Transactions that run may still need them, so this waits until there are none.
+    pub(crate) fn reclaim(&self, builder: &BtreeBuilder) -> CatalogResult<()> {
+        let Some(coordinator) = self.coordinator() else {
+            return Ok(());
+        };
+        if !self.has_garbage.load(Ordering::SeqCst) {
+            return Ok(());
+        }
+        let Some(snapshot) = coordinator.quiescent_snapshot() else {
+            return Ok(());
+        };
+
+        self.has_garbage.store(false, Ordering::SeqCst);
+        let result = self.reclaim_for(builder, &snapshot);
+        if result.is_err() {
+            self.has_garbage.store(true, Ordering::SeqCst);
+        }
+        result
+    }
+
+    fn reclaim_for(&self, builder: &BtreeBuilder, snapshot: &Snapshot) -> CatalogResult<()> {
+        let _entries = self.entries.lock();
+        let schema = meta_table_schema();
+        let mut names: HashMap<String, ObjectId> = HashMap::new();
+
+        for id in self.collect_ids(builder)? {
+            let mut meta_table = builder.build_tree_mut(self.meta_table);
+            let entry = self.get_entry(id, &mut meta_table)?;
+
+            // A transaction that has begun in the meantime may be working on it.
+            if !self.is_settled(&entry, snapshot) {
+                self.has_garbage.store(true, Ordering::SeqCst);
+                continue;
+            }
+
+            let root_of = |row: &Row| Relation::from_meta_table_row(row.clone()).root();
+            let mut roots: HashSet<PageId> = entry
+                .version_rows(&schema)?
+                .iter()
+                .map(|(_, row)| root_of(row))
+                .collect();
+
+            let visible = entry
+                .as_tuple_ref(&schema, snapshot)
+                .map(|version| Ok::<_, TupleError>((version.version_xmin(), version.to_row_with(&schema)?)))
+                .transpose()?;
+
+            match visible {
+                Some((xmin, row)) => {
+                    let relation = Relation::from_meta_table_row(row.clone());
+                    roots.remove(&relation.root());
+                    names.insert(relation.name().to_string(), id);
+
+                    if entry.is_deleted() || entry.num_versions_with(&schema)? > 1 {
+                        let counter = schema.bind_column("next_row_id")?;
+                        let mut row = row.into_inner();
+                        if let Ok(next) = Self::next_row_id_of(&entry, &schema) {
+                            row[counter] = DataType::BigUInt(UInt64(next));
+                        }
+                        let row = Row::from(row);
+                        let settled = TupleBuilder::from_schema(&schema).build(&row, xmin)?;
+                        meta_table.update(self.meta_table, settled, &schema)?;
+                    }
+                }
+                None => meta_table.remove_tuple(self.meta_table, &entry, &schema)?,
+            }
+            drop(meta_table);
+
+            for root in roots {
+                builder.build_tree_mut(root).dealloc()?;
+            }
+        }
+
+        self.reclaim_names(&names, builder, snapshot)
+    }
+
+    /// Makes the meta index say exactly which names there are.
+    fn reclaim_names(
+        &self,
+        names: &HashMap<String, ObjectId>,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let schema = meta_index_schema();
+        let mut meta_index = builder.build_tree_mut(self.meta_index);
+
+        let mut entries: Vec<Tuple> = Vec::new();
+        if !meta_index.is_empty()? {
+            let mut page = Some(Self::leftmost_leaf(&mut meta_index)?);
+            while let Some(leaf) = page {
+                for slot in 0..meta_index.get_page(leaf)?.num_slots() {
+                    let pos = BtreePagePosition::new(leaf, slot);
+                    entries.push(meta_index.get_tuple_at_unchecked(pos, &schema)?);
+                }
+                page = meta_index.get_page(leaf)?.next_sibling();
             }
+        }
+
+        let mut known: HashSet<String> = HashSet::new();
+        for entry in entries {
+            let row = entry.as_tuple_ref_with(&schema).to_row_with(&schema)?;
+            let DataType::Blob(blob) = &row[0] else {
+                continue;
+            };
+            let name = blob.as_str().unwrap_or_default().to_string();
+
+            if !self.is_settled(&entry, snapshot) {
+                known.insert(name);
+                continue;
+            }
+
+            let owner = names.get(&name);
+            if owner != Some(&Self::object_of_name(&entry, &schema)?) || entry.is_deleted() {
+                meta_index.remove_tuple(self.meta_index, &entry, &schema)?;
+            } else {
+                known.insert(name);
+            }
+        }
+
+        for (name, id) in names.iter().filter(|(name, _)| !known.contains(*name)) {
+            let row = Row::from(vec![
+                DataType::Blob(Blob::from(name.as_str())),
+                DataType::BigUInt(UInt64(*id)),
+            ]);
+            // Whoever created it committed long ago.
+            let tuple = TupleBuilder::from_schema(&schema).build(&row, 0)?;
+            meta_index.upsert(self.meta_index, tuple, &schema)?;
+        }
+        Ok(())
+    }
+
+    fn leftmost_leaf(tree: &mut Btree<BtreeWriteAccessor>) -> CatalogResult<PageId> {
+        let mut page = tree.get_root();
+        while !tree.get_page(page)?.is_leaf() {
+            page = tree
+                .get_page(page)?
+                .iter_children()
+                .next()
+                .ok_or(BtreeError::BtreePageNotFound(page))?;
+        }
+        Ok(page)
+    }
+
+    /// Whether the transactions that created and deleted an entry had finished when the snapshot was taken.
+    fn is_settled(&self, entry: &Tuple, snapshot: &Snapshot) -> bool {
+        let settled = |xid: TransactionId| {
+            snapshot.is_committed_before_snapshot(xid) || snapshot.is_transaction_aborted(xid)
         };
+        settled(entry.xmin()) && entry.xmax().is_none_or(settled)
+    }
+
+    /// The ids of all the relations in the meta table, visible or not.
+    fn collect_ids(&self, builder: &BtreeBuilder) -> CatalogResult<Vec<ObjectId>> {
+        let schema = meta_table_schema();
+        let mut meta_table = builder.build_tree(self.meta_table);
+        if meta_table.is_empty()? {
+            return Ok(Vec::new());
+        }
+
+        let mut ids = Vec::new();
+        for position in meta_table.iter_forward()? {
+            let entry = meta_table.get_tuple_at_unchecked(position?, &schema)?;
+            if let DataType::BigUInt(id) = &entry.as_tuple_ref_with(&schema).to_row_with(&schema)?[0] {
+                ids.push(id.value());
+            }
+        }
+        Ok(ids)
     }
 
     pub(crate) fn get_next_object_id(&self) -> ObjectId {
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index a3205a2..f39c0d5 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -102,7 +102,7 @@ fn aligned_offset(offset: usize, align: usize) -> usize {
 }
 
 /// A row is a higher level representation of a tuple
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub struct Row(Box<[DataType]>);
 
 impl Default for Row {
@@ -536,13 +536,32 @@ impl<'a> TupleReader<'a> {
 
     /// Parses a specific version by traversing deltas.
     fn parse_version(&self, data: &[u8], target_version: u8) -> TupleResult<TupleLayout> {
-        let mut layout = self.parse_last_version(data)?;
+        let layout = self.parse_last_version(data)?;
 
         if target_version > layout.current_version() {
             return Err(TupleError::InvalidVersion(target_version as usize));
         }
 
-        if target_version == layout.current_version() {
+        self.walk_versions(data, layout, |layout, _| {
+            layout.current_version() == target_version
+        })
+    }
+
+    /// Parses the version that is [age] versions older than the newest one.
+    fn parse_older_version(&self, data: &[u8], age: usize) -> TupleResult<TupleLayout> {
+        let layout = self.parse_last_version(data)?;
+        self.walk_versions(data, layout, |_, current| current == age)
+    }
+
+    /// Goes from the newest version to the older ones until [found] says to stop.
+    fn walk_versions(
+        &self,
+        data: &[u8],
+        mut layout: TupleLayout,
+        found: impl Fn(&TupleLayout, usize) -> bool,
+    ) -> TupleResult<TupleLayout> {
+        let mut age = 0;
+        if found(&layout, age) {
             return Ok(layout);
         }
 
@@ -590,7 +609,8 @@ impl<'a> TupleReader<'a> {
                 // If null offset does not matter.
             }
 
-            if layout.current_version() == target_version {
+            age += 1;
+            if found(&layout, age) {
                 break;
             }
         }
@@ -1103,6 +1123,79 @@ impl Tuple {
         Ok(())
     }
 
+    /// Replaces values of the newest version in place, without keeping what they were.
+    ///
+    /// The version stays the same one: its creator, its deleter and the history behind it do not
+    /// change. Meant for values that do not belong to any version, like counters.
+    pub(crate) fn overwrite_with(
+        &mut self,
+        modified: &HashMap<usize, DataType>,
+        schema: &Schema,
+    ) -> TupleResult<()> {
+        self.validate_modifications(modified, schema)?;
+
+        let reader = TupleReader::from_schema(schema);
+        let layout = reader.parse_last_version(self.data.effective_data())?;
+        let current = TupleRef::new(self.data.effective_data(), layout.clone());
+        let bitmap_size = null_bitmap_size(schema.num_values());
+        let keys = self.extract_keys(&current, schema)?;
+        let (new_values, _, _) = self.compute_values(&current, modified, schema)?;
+
+        let mut head_size = TupleHeader::SIZE + bitmap_size;
+        for item in keys.iter().chain(new_values.iter().filter(|v| !v.is_null())) {
+            head_size = aligned_offset(head_size, item.align()) + item.runtime_size();
+        }
+
+        // The history moves along with the end of the values.
+        let history_start = layout.delta_start();
+        let history_size = self.data.len().saturating_sub(history_start);
+        let total_size = if history_size > 0 {
+            DeltaHeader::aligned_offset(head_size) + history_size
+        } else {
+            head_size
+        };
+
+        let mut new_data = Payload::alloc_aligned(total_size)?;
+        let buffer = new_data.effective_data_mut();
+        let (header, _) = TupleHeader::read_from(self.data.effective_data(), 0);
+        let mut cursor = header.write_to(buffer, 0);
+        cursor = Self::write_null_bitmap(buffer, cursor, &new_values, bitmap_size);
+        cursor = Self::write_data_items(buffer, cursor, &keys)?;
+        cursor = Self::write_non_null_items(buffer, cursor, &new_values)?;
+
+        if history_size > 0 {
+            cursor = DeltaHeader::aligned_offset(cursor);
+            buffer[cursor..cursor + history_size]
+                .copy_from_slice(&self.data.effective_data()[history_start..]);
+        }
+
+        self.data = new_data;
+        Ok(())
+    }
+
+    /// Takes back the mark of a deletion.
+    pub(crate) fn undelete(&mut self) {
+        let buffer = self.data.effective_data_mut();
+        let (mut header, _) = TupleHeader::read_from(buffer, 0);
+        header.xmax = TupleHeader::new(0, 0, None).xmax;
+        header.write_to(buffer, 0);
+    }
+
+    /// The rows of all the versions of the tuple, the newest first, with their creators.
+    pub(crate) fn version_rows(&self, schema: &Schema) -> TupleResult<Vec<(TransactionId, Row)>> {
+        let reader = TupleReader::from_schema(schema);
+        let data = self.data.effective_data();
+        let count = self.num_versions_with(schema)?;
+
+        let mut rows = Vec::with_capacity(count);
+        for age in 0..count {
+            let layout = reader.parse_older_version(data, age)?;
+            let version = TupleRef::new(data, layout);
+            rows.push((version.version_xmin(), version.to_row_with(schema)?));
+        }
+        Ok(rows)
+    }
+
     fn validate_modifications(
         &self,
         modified: &HashMap<usize, DataType>,
diff --git a/crates/axmos-db/src/types/id.rs b/crates/axmos-db/src/types/id.rs
index ccc3e40..8658403 100644
--- a/crates/axmos-db/src/types/id.rs
+++ b/crates/axmos-db/src/types/id.rs
@@ -28,6 +28,11 @@ impl LogicalId {
         Self(table, row)
     }
 
+    /// The entry of an object in the catalog.
+    pub fn catalog_entry(object: ObjectId) -> Self {
+        Self(ObjectId::MAX, object)
+    }
+
     pub fn table(&self) -> ObjectId {
         self.0
     }
-- 
2.43.0


From 92b259c8558ef3337c789f41920c54061df11f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 18/30] fix: an update is a version of its transaction; vacuum
 frees exactly what nobody needs

---
 crates/axmos-db/src/lib.rs                    |  18 +-
 .../src/multithreading/coordinator.rs         |   8 +
 crates/axmos-db/src/runtime/ddl.rs            |  27 +-
 crates/axmos-db/src/runtime/dml.rs            | 283 ++++++++++--------
 crates/axmos-db/src/runtime/ops/index_scan.rs |   9 +-
 crates/axmos-db/src/schema/catalog.rs         | 206 +++++++------
 crates/axmos-db/src/storage/tuple.rs          |  88 ++++++
 crates/axmos-db/src/tcp/session.rs            |   9 +-
 8 files changed, 394 insertions(+), 254 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 69ef2cb..3b6ce44 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -49,7 +49,7 @@ use crate::{
     io::{
         disk::FileOperations,
         logger::Begin,
-        pager::{Pager, SharedPager},
+        pager::{BtreeBuilder, Pager, SharedPager},
         recovery::WalRecuperator,
     },
     multithreading::{
@@ -517,16 +517,26 @@ impl Database {
                 eprintln!("VACUUM: Aborted {} active transactions", aborted_txs.len());
             }
 
+            // Nothing of the catalog is in use now
+            let tree_builder = {
+                let pager_guard = pager.read();
+                BtreeBuilder::new(
+                    pager_guard.min_keys_per_page(),
+                    pager_guard.num_siblings_per_side(),
+                )
+                .with_pager(pager.clone())
+            };
+            catalog.reclaim(&tree_builder).map_err(box_err)?;
+
             // Create a vacuum transaction
             let (tx_ctx, logger) =
                 Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())
                     .map_err(box_err)?;
 
-            let tree_builder = tx_ctx.tree_builder();
             let vacuum_snapshot = tx_ctx.snapshot();
 
             let mut stats = catalog
-                .vacuum(&tree_builder, &vacuum_snapshot, oldest_active_xid)
+                .vacuum(&tree_builder, &vacuum_snapshot)
                 .map_err(box_err)?;
 
             // Clean up transaction coordinator
@@ -536,7 +546,7 @@ impl Database {
             pager.write().clear_aborted_up_to(oldest_active_xid);
 
             // Commit vacuum transaction
-            tx_ctx.commit_transaction().map_err(box_err)?;
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
 
             // Flush everything to disk
             pager.write().flush().map_err(box_err)?;
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index d90fbd8..1b331f3 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -592,6 +592,14 @@ impl TransactionCoordinator {
             .is_some_and(|holder| *holder != txid && Self::is_running(&txs, *holder))
     }
 
+    /// What a transaction has taken for writing.
+    pub fn claims_of(&self, txid: TransactionId) -> Vec<LogicalId> {
+        let txs = self.transactions.read();
+        txs.get(&txid)
+            .map(|entry| entry.write_set().keys().copied().collect())
+            .unwrap_or_default()
+    }
+
     /// Whether another running transaction has taken rows of a table for writing.
     pub fn has_other_writers(&self, txid: TransactionId, table: ObjectId) -> bool {
         let txs = self.transactions.read();
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 032d1cc..d4c9319 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -1168,16 +1168,15 @@ impl DdlExecutor {
             return Ok(rows);
         }
 
+        let is_aborted = |xid| self.ctx.state_of(xid) == TransactionState::Aborted;
         for position in tree.iter_forward()? {
             let mut tuple = tree.get_tuple_at_unchecked(position?, schema)?;
-            if self.ctx.state_of(tuple.xmin()) == TransactionState::Aborted {
-                continue;
-            }
-            if let Some(xid) = tuple.xmax()
-                && self.ctx.state_of(xid) == TransactionState::Aborted
-            {
+            if tuple.xmax().is_some_and(is_aborted) {
                 tuple.undelete();
             }
+            if !tuple.discard_versions(schema, is_aborted)? {
+                continue;
+            }
             let row = tuple.as_tuple_ref_with(schema).to_row_with(schema)?;
             rows.push((tuple, row));
         }
@@ -1189,7 +1188,12 @@ impl DdlExecutor {
         let rows = self.read_all(relation)?;
         Ok(rows
             .into_iter()
-            .filter(|(tuple, _)| IndexTarget::is_taken(&self.ctx, tuple))
+            .filter(|(tuple, _)| {
+                tuple.xmax().is_none_or(|xid| {
+                    xid != self.ctx.tid()
+                        && self.ctx.state_of(xid) != TransactionState::Committed
+                })
+            })
             .map(|(_, row)| row)
             .collect())
     }
@@ -1340,13 +1344,8 @@ impl DdlExecutor {
     }
 
     fn populate_index(&self, relation: &Relation, target: &IndexTarget) -> RuntimeResult<()> {
-        let rows = self.read_all(relation)?;
-        for (tuple, row) in rows {
-            if let Some(entry) = target.entry_of(&row)? {
-                target.add_existing(&self.ctx, relation, &entry, &tuple)?;
-            }
-        }
-        Ok(())
+        let rows = self.live_rows(relation)?;
+        target.add_existing(&self.ctx, relation, &rows)
     }
 
     fn relation_exists(&self, name: &str) -> bool {
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 3430e00..5b5c0ab 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -87,6 +87,10 @@ impl WriteSet {
 
 /// An index of a table. Its entries are the indexed columns followed by the row id, all of them
 /// keys. Rows with a NULL in an indexed column have no entry.
+///
+/// There is an entry for each version of a row. The entries do not say which of them is valid, the
+/// row does: whoever comes from an entry has to look whether it is the one of the version that is
+/// visible. VACUUM removes the ones that no version needs.
 pub(crate) struct IndexTarget {
     columns: Vec<usize>,
     root: PageId,
@@ -184,17 +188,6 @@ impl IndexTarget {
         Ok(found)
     }
 
-    /// Whether an entry keeps others from having the same values: its row is not known to be gone.
-    pub(crate) fn is_taken(ctx: &ThreadContext, entry: &Tuple) -> bool {
-        if ctx.state_of(entry.xmin()) == TransactionState::Aborted {
-            return false;
-        }
-        match entry.xmax() {
-            Some(xid) => xid != ctx.tid() && ctx.state_of(xid) != TransactionState::Committed,
-            None => true,
-        }
-    }
-
     fn violation(&self, relation: &Relation) -> RuntimeError {
         let columns: Vec<&str> = self
             .columns
@@ -209,102 +202,132 @@ impl IndexTarget {
         .into()
     }
 
-    /// Adds an entry unless another row has the same values.
-    /// The entries that [ignore] accepts are about to disappear.
-    fn add(
+    /// Whether a row keeps others from having the same values as an entry: it has them, or may have
+    /// them again, depending on what becomes of the transactions that have written it.
+    fn is_taken(
         &self,
         ctx: &ThreadContext,
         relation: &Relation,
+        row_id: RowId,
         entry: &Row,
-        xmin: TransactionId,
-        ignore: impl Fn(&Row) -> bool,
-        writes: &mut WriteSet,
-    ) -> RuntimeResult<()> {
-        let mut tree = ctx.build_tree_mut(self.root);
+    ) -> RuntimeResult<bool> {
+        let schema = relation.schema();
+        let mut table = ctx.build_tree(relation.root());
+        let key = UInt64(row_id).serialize()?;
+        let SearchResult::Found(position) = table.search(&key, schema)? else {
+            return Ok(false);
+        };
+        let tuple = table.get_tuple_at_unchecked(position, schema)?;
 
-        let taken = self
-            .entries_like(&mut tree, entry.as_slice())?
-            .iter()
-            .any(|(tuple, existing)| !ignore(existing) && Self::is_taken(ctx, tuple));
-        if taken {
-            return Err(self.violation(relation));
+        if let Some(xid) = tuple.xmax()
+            && (xid == ctx.tid() || ctx.state_of(xid) == TransactionState::Committed)
+        {
+            return Ok(false);
         }
 
-        let tuple = self.build_entry(entry, xmin)?;
-        tree.upsert(self.root, tuple.clone(), &self.schema)?;
-        writes.inserted(self.root, &self.schema, tuple);
-        Ok(())
+        for (xmin, row) in tuple.version_rows(schema)? {
+            let state = ctx.state_of(xmin);
+            if state == TransactionState::Aborted {
+                continue;
+            }
+            let matches = self.entry_of(&row)?.is_some_and(|other| {
+                self.columns.iter().enumerate().all(|(i, _)| other[i] == entry[i])
+            });
+            if matches {
+                return Ok(true);
+            }
+            // What is behind it comes back only if the one who wrote this version rolls back.
+            if xmin == ctx.tid() || state == TransactionState::Committed {
+                return Ok(false);
+            }
+        }
+        Ok(false)
     }
 
-    /// Adds the entry of a row that is already in the table.
-    pub(crate) fn add_existing(
+    /// Adds the entries of the rows that a statement is about to write, unless others have the
+    /// same values.
+    fn add_all(
         &self,
         ctx: &ThreadContext,
         relation: &Relation,
-        entry: &Row,
-        row: &Tuple,
+        changes: &[RowChange],
+        writes: &mut WriteSet,
     ) -> RuntimeResult<()> {
-        let mut tree = ctx.build_tree_mut(self.root);
-
-        let taken = Self::is_taken(ctx, row)
-            && self
-                .entries_like(&mut tree, entry.as_slice())?
-                .iter()
-                .any(|(tuple, _)| Self::is_taken(ctx, tuple));
-        if taken {
-            return Err(self.violation(relation));
+        // The rows that the statement writes count as they are going to be, the others as they are.
+        let mut written: HashMap<RowId, Option<Row>> = HashMap::new();
+        for change in changes {
+            let entry = match &change.new {
+                Some((_, row)) => self.entry_of(row)?,
+                None => None,
+            };
+            written.insert(change.row_id, entry);
         }
 
-        let mut tuple = self.build_entry(entry, row.xmin())?;
-        if let Some(xid) = row.xmax() {
-            tuple.delete(xid)?;
-        }
-        tree.insert(self.root, tuple, &self.schema)?;
-        Ok(())
-    }
+        for change in changes {
+            let Some(Some(entry)) = written.get(&change.row_id) else {
+                continue;
+            };
+            let previous = match &change.old {
+                Some((_, row)) => self.entry_of(row)?,
+                None => None,
+            };
+            if previous.as_ref() == Some(entry) {
+                continue;
+            }
 
-    /// Finds an entry.
-    fn get(&self, tree: &mut Btree<BtreeWriteAccessor>, entry: &Row) -> RuntimeResult<Option<Tuple>> {
-        let probe = self.build_entry(entry, 0)?;
-        let result = tree.search_tuple(&probe, &self.schema)?;
-        tree.accessor_mut()?.clear_traversal();
-        match result {
-            SearchResult::Found(position) => {
-                Ok(Some(tree.get_tuple_at_unchecked(position, &self.schema)?))
+            let mut tree = ctx.build_tree_mut(self.root);
+            let mut is_there = false;
+            for (_, existing) in self.entries_like(&mut tree, entry.as_slice())? {
+                let row_id = Self::row_id_of(&existing)?;
+                if row_id == change.row_id {
+                    is_there = true;
+                    continue;
+                }
+                let taken = match written.get(&row_id) {
+                    Some(other) => other.as_ref().is_some_and(|other| *other == existing),
+                    None => self.is_taken(ctx, relation, row_id, entry)?,
+                };
+                if taken {
+                    return Err(self.violation(relation));
+                }
             }
-            SearchResult::NotFound(_) => Ok(None),
-        }
-    }
 
-    fn remove(
-        &self,
-        ctx: &ThreadContext,
-        entry: &Row,
-        writes: &mut WriteSet,
-    ) -> RuntimeResult<()> {
-        let mut tree = ctx.build_tree_mut(self.root);
-        if let Some(tuple) = self.get(&mut tree, entry)? {
-            tree.remove_tuple(self.root, &tuple, &self.schema)?;
-            writes.replaced(self.root, &self.schema, tuple);
+            if !is_there {
+                let tuple = self.build_entry(entry, ctx.tid())?;
+                tree.insert(self.root, tuple.clone(), &self.schema)?;
+                writes.inserted(self.root, &self.schema, tuple);
+            }
         }
         Ok(())
     }
 
-    fn mark_deleted(
+    /// Adds the entries of rows that are already in the table.
+    pub(crate) fn add_existing(
         &self,
         ctx: &ThreadContext,
-        entry: &Row,
-        writes: &mut WriteSet,
+        relation: &Relation,
+        rows: &[Row],
     ) -> RuntimeResult<()> {
-        let mut tree = ctx.build_tree_mut(self.root);
-        if let Some(tuple) = self.get(&mut tree, entry)? {
-            let mut deleted = tuple.clone();
-            deleted.delete(ctx.tid())?;
-            tree.update(self.root, deleted, &self.schema)?;
-            writes.replaced(self.root, &self.schema, tuple);
+        for row in rows {
+            let Some(entry) = self.entry_of(row)? else {
+                continue;
+            };
+            let mut tree = ctx.build_tree_mut(self.root);
+            if !self.entries_like(&mut tree, entry.as_slice())?.is_empty() {
+                return Err(self.violation(relation));
+            }
+            let tuple = self.build_entry(&entry, ctx.tid())?;
+            tree.insert(self.root, tuple, &self.schema)?;
         }
         Ok(())
     }
+
+    pub(crate) fn row_id_of(entry: &Row) -> RuntimeResult<RowId> {
+        let row_id = entry.last().and_then(|value| value.as_big_u_int());
+        Ok(row_id
+            .ok_or(RuntimeError::Other("index entry without a row id".to_string()))?
+            .value())
+    }
 }
 
 /// Executes DML operations with automatic index maintenance.
@@ -435,10 +458,16 @@ impl DmlExecutor {
     }
 
     /// Runs the writes of a statement. If they fail, none of them remains.
+    ///
+    /// No other statement writes to the table in the meantime, so that what has been checked still
+    /// holds when the rows are written.
     fn apply(
         &self,
+        table_id: ObjectId,
         write: impl FnOnce(&mut WriteSet) -> RuntimeResult<()>,
     ) -> RuntimeResult<()> {
+        let lock = self.ctx.catalog().write_lock(table_id);
+        let _writing = lock.lock();
         let mut writes = WriteSet::default();
         let result = write(&mut writes);
         if result.is_err() {
@@ -515,13 +544,9 @@ impl DmlExecutor {
             });
         }
 
-        self.apply(|writes| {
+        self.apply(table_id, |writes| {
             for index in &indexes {
-                for (_, row) in changes.iter().filter_map(|change| change.new.as_ref()) {
-                    if let Some(entry) = index.entry_of(row)? {
-                        index.add(&self.ctx, &relation, &entry, tid, |_| false, writes)?;
-                    }
-                }
+                index.add_all(&self.ctx, &relation, &changes, writes)?;
             }
 
             let root = relation.root();
@@ -594,12 +619,12 @@ impl DmlExecutor {
             self.validate_row(&relation, &new_row)?;
             images.push(self.log_images(schema, Some(&old_row), Some(&new_row))?);
 
-            // Whoever tried to delete the row did not succeed.
+            // The versions of transactions that were rolled back are nothing to build on.
             let mut updated = tuple.clone();
-            if updated.is_deleted() {
-                updated.undelete();
-            }
-            updated.add_version_with(&assignments, tuple.xmin(), schema)?;
+            updated.discard_versions(schema, |xid| {
+                self.ctx.state_of(xid) == TransactionState::Aborted
+            })?;
+            updated.add_version_with(&assignments, self.ctx.tid(), schema)?;
             changes.push(RowChange {
                 row_id,
                 old: Some((tuple, old_row)),
@@ -607,37 +632,11 @@ impl DmlExecutor {
             });
         }
 
-        self.apply(|writes| {
-            // Entries come before rows and leave after them: whoever can see a row finds it.
-            let mut left = Vec::new();
+        self.apply(table_id, |writes| {
+            // Entries come before rows: whoever can see a row finds it.
             let moving = self.ctx.moves_index_entries();
             for index in indexes.iter().filter(|_| moving) {
-                let mut moved: HashMap<RowId, (Option<Row>, Option<Row>, TransactionId)> =
-                    HashMap::new();
-                for change in &changes {
-                    if let (Some((tuple, old)), Some((_, new))) = (&change.old, &change.new) {
-                        let (old, new) = (index.entry_of(old)?, index.entry_of(new)?);
-                        if old != new {
-                            moved.insert(change.row_id, (old, new, tuple.xmin()));
-                        }
-                    }
-                }
-
-                // The old entry of a row that is about to leave is not in the way of the others.
-                let leaving = |entry: &Row| {
-                    entry
-                        .last()
-                        .and_then(|row_id| row_id.as_big_u_int())
-                        .and_then(|row_id| moved.get(&row_id.value()))
-                        .is_some_and(|(old, _, _)| old.as_ref() == Some(entry))
-                };
-
-                for (_, new, xmin) in moved.values() {
-                    if let Some(entry) = new {
-                        index.add(&self.ctx, &relation, entry, *xmin, leaving, writes)?;
-                    }
-                }
-                left.extend(moved.into_values().filter_map(|(old, _, _)| Some((index, old?))));
+                index.add_all(&self.ctx, &relation, &changes, writes)?;
             }
 
             let root = relation.root();
@@ -649,10 +648,6 @@ impl DmlExecutor {
                 }
             }
 
-            for (index, entry) in left {
-                index.remove(&self.ctx, &entry, writes)?;
-            }
-
             for (change, (old, new)) in changes.iter().zip(images) {
                 self.logger.log_update(table_id, change.row_id, old, new)?;
             }
@@ -687,7 +682,6 @@ impl DmlExecutor {
 
         let relation = self.relation(table_id)?;
         let schema = relation.schema();
-        let indexes = IndexTarget::of_table(&self.ctx, schema)?;
         let existing = self.read_rows(&relation, row_ids)?;
 
         let mut changes = Vec::with_capacity(row_ids.len());
@@ -703,22 +697,19 @@ impl DmlExecutor {
             }
         }
 
-        self.apply(|writes| {
+        self.apply(table_id, |writes| {
             let root = relation.root();
-            for (tuple, row) in changes.iter().filter_map(|change| change.old.as_ref()) {
+            for (tuple, _) in changes.iter().filter_map(|change| change.old.as_ref()) {
                 let mut deleted = tuple.clone();
+                deleted.discard_versions(schema, |xid| {
+                    self.ctx.state_of(xid) == TransactionState::Aborted
+                })?;
                 deleted.delete(self.ctx.tid())?;
 
                 let mut table = self.ctx.build_tree_mut(root);
                 table.update(root, deleted, schema)?;
                 drop(table);
                 writes.replaced(root, schema, tuple.clone());
-
-                for index in &indexes {
-                    if let Some(entry) = index.entry_of(row)? {
-                        index.mark_deleted(&self.ctx, &entry, writes)?;
-                    }
-                }
             }
 
             for (change, image) in changes.iter().zip(images) {
@@ -730,6 +721,34 @@ impl DmlExecutor {
         Ok(changes.len())
     }
 
+    /// Leaves the updates of the transaction in place although it is rolled back: they become part
+    /// of the versions that they replaced.
+    pub(crate) fn keep_updates(&self) -> RuntimeResult<()> {
+        let Some(coordinator) = self.ctx.catalog().coordinator() else {
+            return Ok(());
+        };
+        for claimed in coordinator.claims_of(self.ctx.tid()) {
+            let Ok(relation) = self.relation(claimed.table()) else {
+                continue;
+            };
+            let schema = relation.schema();
+            let key = UInt64(claimed.row()).serialize()?;
+            self.apply(claimed.table(), |writes| {
+                let mut table = self.ctx.build_tree_mut(relation.root());
+                let result = table.search(&key, schema)?;
+                table.accessor_mut()?.clear_traversal();
+                if let SearchResult::Found(position) = result {
+                    let mut tuple = table.get_tuple_at_unchecked(position, schema)?;
+                    if tuple.hand_over_versions(self.ctx.tid(), schema)? {
+                        table.update(relation.root(), tuple, schema)?;
+                    }
+                }
+                Ok(())
+            })?;
+        }
+        Ok(())
+    }
+
     /// Builds a full row, mapping input columns to schema positions. Columns without an input
     /// take their default.
     fn build_full_row(
diff --git a/crates/axmos-db/src/runtime/ops/index_scan.rs b/crates/axmos-db/src/runtime/ops/index_scan.rs
index 685d3fa..48278f1 100644
--- a/crates/axmos-db/src/runtime/ops/index_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/index_scan.rs
@@ -163,9 +163,10 @@ impl Executor for IndexScan {
                 .as_ref()
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
-            let Some(entry) = tree.get_row_at(next_pos, &self.index_schema, &snapshot)? else {
-                continue;
-            };
+            let entry = tree.get_tuple_at_unchecked(next_pos, &self.index_schema)?;
+            let entry = entry
+                .as_tuple_ref_with(&self.index_schema)
+                .to_row_with(&self.index_schema)?;
             if !self.evaluate_index_predicate(&entry)? {
                 continue;
             }
@@ -184,7 +185,7 @@ impl Executor for IndexScan {
                 continue;
             };
 
-            // The row may have another entry by now, which is the one to find it by.
+            // There is an entry for each version of the row. Only the one of the visible version counts.
             let is_current = !self.ctx.moves_index_entries()
                 || (self.indexed_columns.iter().enumerate()).all(|(position, column)| {
                     row.as_slice().get(*column) == Some(&entry[position])
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 1583218..4afd8d6 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -6,7 +6,7 @@ use crate::{
     multithreading::coordinator::{
         Snapshot, TransactionCoordinator, TransactionError, TransactionState,
     },
-    runtime::{RuntimeError, context::TransactionLogger},
+    runtime::{RuntimeError, context::TransactionLogger, dml::IndexTarget},
     schema::{Schema, base::SchemaError},
     storage::{
         core::traits::{BtreeMetadata, BtreeOps},
@@ -29,7 +29,7 @@ use super::{
 use parking_lot::Mutex;
 use std::collections::{HashMap, HashSet};
 use std::sync::{
-    OnceLock,
+    Arc, OnceLock,
     atomic::{AtomicBool, Ordering},
 };
 use std::fmt::{Display, Formatter, Result as FmtResult};
@@ -149,6 +149,8 @@ pub struct Catalog {
     has_garbage: AtomicBool,
     /// Held while an entry is read in order to be replaced.
     entries: Mutex<()>,
+    /// Held while a statement writes to a table.
+    write_locks: Mutex<HashMap<ObjectId, Arc<Mutex<()>>>>,
 }
 
 impl Catalog {
@@ -160,6 +162,7 @@ impl Catalog {
             coordinator: OnceLock::new(),
             has_garbage: AtomicBool::new(true),
             entries: Mutex::new(()),
+            write_locks: Mutex::new(HashMap::new()),
         }
     }
 
@@ -172,6 +175,11 @@ impl Catalog {
         self.coordinator.get()
     }
 
+    /// The lock to hold while writing to a table.
+    pub(crate) fn write_lock(&self, table: ObjectId) -> Arc<Mutex<()>> {
+        Arc::clone(self.write_locks.lock().entry(table).or_default())
+    }
+
     /// What became of a transaction. Without a coordinator, as far as the snapshot knows.
     pub(crate) fn state_of(&self, xid: TransactionId, snapshot: &Snapshot) -> TransactionState {
         if xid == snapshot.xid() {
@@ -398,140 +406,140 @@ impl Catalog {
     /// Vacuums all tuples in all relations, removing old MVCC versions
     /// that are no longer needed by any transaction.
     ///
+    /// The snapshot is the oldest one that is still in use. Nothing refers to the transactions that
+    /// were rolled back before it was taken any more.
+    ///
     /// Returns statistics about the vacuum operation.
-    pub fn vacuum(
-        &self,
-        builder: &BtreeBuilder,
-        snapshot: &Snapshot,
-        oldest_active_xid: TransactionId,
-    ) -> CatalogResult<VacuumStats> {
+    pub fn vacuum(&self, builder: &BtreeBuilder, snapshot: &Snapshot) -> CatalogResult<VacuumStats> {
         let mut stats = VacuumStats::default();
 
-        // Collect all user relations
-        let schema = meta_table_schema();
-        let relations_to_vacuum: Vec<(ObjectId, PageId, Schema)> = {
-            let mut meta_table = builder.build_tree(self.meta_table);
-
-            if meta_table.is_empty()? {
-                return Ok(stats);
+        for id in self.collect_ids(builder)? {
+            let relation = match self.get_relation(id, builder, snapshot) {
+                Ok(relation) => relation,
+                Err(CatalogError::TableNotFound(_)) => continue,
+                Err(err) => return Err(err),
+            };
+            stats.tables_vacuumed += 1;
+            if !relation.is_table() {
+                continue;
             }
 
-            let mut relations = Vec::new();
-
-            for iter_result in meta_table.iter_forward()? {
-                if let Ok(pos) = iter_result {
-                    meta_table.with_cell_at(pos, |bytes| {
-                        let reader = TupleReader::from_schema(&schema);
-                        if let Some(layout) = reader.parse_for_snapshot(bytes, snapshot)? {
-                            let tuple = TupleRef::new(bytes, layout);
-                            let row = tuple.to_row_with(&schema)?;
-                            let relation = Relation::from_meta_table_row(row);
-
-                            relations.push((
-                                relation.object_id(),
-                                relation.root(),
-                                relation.schema().clone(),
-                            ));
-                        }
-                        Ok::<(), TupleError>(())
-                    })??;
-                }
+            let lock = self.write_lock(id);
+            let _writing = lock.lock();
+            stats.total_bytes_freed +=
+                self.vacuum_table(relation.root(), relation.schema(), builder, snapshot)?;
+            for handle in relation.get_indexes() {
+                let index = self.get_relation(handle.id(), builder, snapshot)?;
+                stats.total_bytes_freed +=
+                    self.vacuum_index(&relation, &index, handle.indexed_column_ids(), builder)?;
             }
-
-            relations
-        };
-
-        // Vacuum each user relation
-        for (object_id, root, relation_schema) in relations_to_vacuum {
-            let bytes_freed =
-                self.vacuum_btree(root, &relation_schema, builder, snapshot, oldest_active_xid)?;
-
-            stats.tables_vacuumed += 1;
-            stats.total_bytes_freed += bytes_freed;
         }
 
-        // vacuum the meta table itself
-        stats.meta_table_bytes_freed += self.vacuum_btree(
-            self.meta_table,
-            &meta_table_schema(),
-            builder,
-            snapshot,
-            oldest_active_xid,
-        )?;
-
-        // Vacuum the meta index
-        stats.meta_index_bytes_freed += self.vacuum_btree(
-            self.meta_index,
-            &meta_index_schema(),
-            builder,
-            snapshot,
-            oldest_active_xid,
-        )?;
-
         Ok(stats)
     }
 
-    /// Vacuums a single B-tree, iterating through all tuples and removing
-    /// old versions.
-    fn vacuum_btree(
+    /// Vacuums the tree of a table: versions that no snapshot from the given one on can see go away.
+    fn vacuum_table(
         &self,
         root: PageId,
         schema: &Schema,
         builder: &BtreeBuilder,
         snapshot: &Snapshot,
-        oldest_active_xid: TransactionId,
     ) -> CatalogResult<usize> {
-        let mut tuples_to_vaccum = Vec::new();
+        let mut tuples_to_vacuum = Vec::new();
         let mut tuples_to_remove = Vec::new();
         let mut total_freed = 0;
         {
             let mut tree = builder.build_tree(root);
-
             if tree.is_empty()? {
                 return Ok(0);
             }
 
-            // Vacuum each tuple
+            let is_aborted = |xid| snapshot.is_transaction_aborted(xid);
             for position in tree.iter_forward()? {
-                if let Ok(pos) = position {
-                    tree.with_cell_at(pos, |bytes| {
-                        let mut tuple = Tuple::from_slice_unchecked(bytes)?;
-                        let xmin = tuple.xmin();
-
-                        let freed = if snapshot.is_transaction_aborted(xmin) || tuple.is_deleted() {
-                            let freed = tuple.full_data().len();
-                            tuples_to_remove.push(tuple);
-                            freed
-                        } else {
-                            let freed = tuple.vaccum_with(oldest_active_xid, schema, |xid| {
-                                snapshot.is_transaction_aborted(xid)
-                            })?;
-                            if freed > 0 {
-                                tuples_to_vaccum.push(tuple);
-                            };
-                            freed
-                        };
-
-                        total_freed += freed;
-                        Ok::<(), TupleError>(())
-                    })??;
+                let mut tuple = tree.get_tuple_at_unchecked(position?, schema)?;
+                let size = tuple.len();
+                let rolled_back = tuple.xmax().is_some_and(is_aborted);
+                let is_deleted = tuple
+                    .xmax()
+                    .is_some_and(|xid| snapshot.is_committed_before_snapshot(xid));
+
+                if is_deleted || !tuple.discard_versions(schema, is_aborted)? {
+                    total_freed += size;
+                    tuples_to_remove.push(tuple);
+                    continue;
+                }
+                if rolled_back {
+                    tuple.undelete();
+                }
+                tuple.vaccum_with(snapshot.xid(), schema, |xid| {
+                    !snapshot.is_committed_before_snapshot(xid)
+                })?;
+
+                let freed = size.saturating_sub(tuple.len());
+                if freed > 0 || rolled_back {
+                    total_freed += freed;
+                    tuples_to_vacuum.push(tuple);
                 }
             }
         }
 
         let mut tree = builder.build_tree_mut(root);
-
-        for tuple in tuples_to_vaccum {
-            tree.update(tree.get_root(), tuple, &schema)?;
+        for tuple in tuples_to_vacuum {
+            tree.update(root, tuple, schema)?;
         }
-
         for tuple in tuples_to_remove {
-            tree.remove_tuple(tree.get_root(), &tuple, &schema)?;
+            tree.remove_tuple(root, &tuple, schema)?;
         }
-
         Ok(total_freed)
     }
 
+    /// Removes the entries of an index that belong to no version of a row any more.
+    fn vacuum_index(
+        &self,
+        table: &Relation,
+        index: &Relation,
+        columns: &[usize],
+        builder: &BtreeBuilder,
+    ) -> CatalogResult<usize> {
+        let schema = index.schema();
+        let target = IndexTarget::new(columns.to_vec(), index.root(), schema.clone());
+
+        let mut entries = Vec::new();
+        {
+            let mut tree = builder.build_tree(index.root());
+            if tree.is_empty()? {
+                return Ok(0);
+            }
+            for position in tree.iter_forward()? {
+                entries.push(tree.get_tuple_at_unchecked(position?, schema)?);
+            }
+        }
+
+        let mut freed = 0;
+        for tuple in entries {
+            let entry = tuple.as_tuple_ref_with(schema).to_row_with(schema)?;
+            let key = UInt64(IndexTarget::row_id_of(&entry)?).serialize()?;
+
+            let mut rows = builder.build_tree(table.root());
+            let mut is_needed = false;
+            if let SearchResult::Found(position) = rows.search(&key, table.schema())? {
+                let row = rows.get_tuple_at_unchecked(position, table.schema())?;
+                for (_, version) in row.version_rows(table.schema())? {
+                    is_needed |= target.entry_of(&version)?.as_ref() == Some(&entry);
+                }
+            }
+            drop(rows);
+
+            if !is_needed {
+                freed += tuple.len();
+                let mut tree = builder.build_tree_mut(index.root());
+                tree.remove_tuple(index.root(), &tuple, schema)?;
+            }
+        }
+        Ok(freed)
+    }
+
     pub(crate) fn get_relation_by_name(
         &self,
         name: &str,
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index f39c0d5..76b3330 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1173,6 +1173,94 @@ impl Tuple {
         Ok(())
     }
 
+    /// Drops the newest versions, as long as they are of transactions that did not come to anything.
+    ///
+    /// Returns whether a version remains. If none does, the tuple stays as it is.
+    pub(crate) fn discard_versions(
+        &mut self,
+        schema: &Schema,
+        is_aborted: impl Fn(TransactionId) -> bool,
+    ) -> TupleResult<bool> {
+        if !is_aborted(self.xmin()) {
+            return Ok(true);
+        }
+
+        let reader = TupleReader::from_schema(schema);
+        let data = self.data.effective_data();
+        let mut cursor = reader.parse_last_version(data)?.delta_start();
+        let mut age = 0;
+        let mut kept = None;
+        while kept.is_none() && DeltaHeader::aligned_offset(cursor) < data.len() {
+            let (delta_header, delta_end) = reader.skip_delta(data, cursor)?;
+            age += 1;
+            cursor = delta_end;
+            kept = (!is_aborted(delta_header.xmin())).then_some(delta_header);
+        }
+        let Some(kept) = kept else {
+            return Ok(false);
+        };
+
+        let version = TupleRef::new(data, reader.parse_older_version(data, age)?);
+        let row = version.to_row_with(schema)?;
+        let mut head = TupleBuilder::from_schema(schema).build(&row, kept.xmin())?;
+        let header = TupleHeader::new(kept.version(), kept.xmin(), None);
+        header.write_to(head.data.effective_data_mut(), 0);
+
+        // The history behind it stays.
+        let history_start = DeltaHeader::aligned_offset(cursor);
+        if history_start < data.len() {
+            let head_size = head.data.len();
+            let at = DeltaHeader::aligned_offset(head_size);
+            let mut whole = Payload::alloc_aligned(at + data.len() - history_start)?;
+            let buffer = whole.effective_data_mut();
+            buffer[..head_size].copy_from_slice(head.data.effective_data());
+            buffer[at..].copy_from_slice(&data[history_start..]);
+            head.data = whole;
+        }
+
+        self.data = head.data;
+        Ok(true)
+    }
+
+    /// Makes the versions that a transaction added to a row belong to whoever wrote the one before.
+    ///
+    /// Returns whether there were any.
+    pub(crate) fn hand_over_versions(
+        &mut self,
+        from: TransactionId,
+        schema: &Schema,
+    ) -> TupleResult<bool> {
+        if self.xmin() != from {
+            return Ok(false);
+        }
+
+        let reader = TupleReader::from_schema(schema);
+        let data = self.data.effective_data();
+        let mut cursor = reader.parse_last_version(data)?.delta_start();
+        let mut headers = Vec::new();
+        let mut previous = None;
+        while previous.is_none() && DeltaHeader::aligned_offset(cursor) < data.len() {
+            let (delta_header, delta_end) = reader.skip_delta(data, cursor)?;
+            if delta_header.xmin() == from {
+                headers.push((DeltaHeader::aligned_offset(cursor), delta_header.version()));
+            } else {
+                previous = Some(delta_header.xmin());
+            }
+            cursor = delta_end;
+        }
+        let Some(previous) = previous else {
+            return Ok(false);
+        };
+
+        let buffer = self.data.effective_data_mut();
+        let (header, _) = TupleHeader::read_from(buffer, 0);
+        TupleHeader::new(header.version(), previous, header.xmax()).write_to(buffer, 0);
+        for (offset, version) in headers {
+            DeltaHeader::new(version, previous).write_to(buffer, offset);
+        }
+        Ok(true)
+    }
+
     /// Takes back the mark of a deletion.
     pub(crate) fn undelete(&mut self) {
         let buffer = self.data.effective_data_mut();
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index d826360..188a82e 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -6,6 +6,7 @@ use crate::{
     runtime::{
         QueryError, QueryResult, QueryRunner, QueryRunnerResult, RuntimeError,
         context::{TransactionContext, TransactionLogger},
+        dml::DmlExecutor,
     },
 };
 pub struct Session {
@@ -32,7 +33,13 @@ impl Session {
         Ok(())
     }
 
+    /// Rolls the transaction back. Its updates stay: they do not belong to the transaction once it
+    /// has asked for that.
     pub fn abort_transaction(&mut self) -> QueryRunnerResult<()> {
+        if self.ctx.is_running() {
+            let child = self.ctx.create_child()?;
+            DmlExecutor::new(child, self.logger.clone()).keep_updates()?;
+        }
         self.ctx.abort_logged(&self.logger)?;
         Ok(())
     }
@@ -69,6 +76,6 @@ unsafe impl Sync for Session {}
 
 impl Drop for Session {
     fn drop(&mut self) {
-        let _ = self.abort_transaction();
+        let _ = self.ctx.abort_logged(&self.logger);
     }
 }
-- 
2.43.0


From c1d62fa7875bd68936fa46e1f4bdb55a198b1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 19/30] fix: expressions, aggregation and plan rewrites follow
 SQL semantics

---
 crates/axmos-db/src/runtime/builder.rs       |   3 +-
 crates/axmos-db/src/runtime/eval.rs          | 240 +++++----
 crates/axmos-db/src/runtime/ops/aggregate.rs |  87 ++-
 crates/axmos-db/src/runtime/ops/join.rs      |  21 +-
 crates/axmos-db/src/sql/binder/analyzer.rs   |  22 +-
 crates/axmos-db/src/sql/binder/binder.rs     |  83 ++-
 crates/axmos-db/src/sql/binder/bounds.rs     | 155 ++++++
 crates/axmos-db/src/sql/parser/lexer.rs      |  20 +-
 crates/axmos-db/src/sql/parser/mod.rs        |  66 ++-
 crates/axmos-db/src/sql/planner/logical.rs   |  81 ++-
 crates/axmos-db/src/sql/planner/memo.rs      |  28 +-
 crates/axmos-db/src/sql/planner/plan.rs      | 228 +++-----
 crates/axmos-db/src/sql/planner/rules.rs     | 523 ++++++-------------
 crates/axmos-db/src/types/blob.rs            | 115 ++--
 14 files changed, 823 insertions(+), 849 deletions(-)

diff --git a/crates/axmos-db/src/runtime/builder.rs b/crates/axmos-db/src/runtime/builder.rs
index e897da7..7468131 100644
--- a/crates/axmos-db/src/runtime/builder.rs
+++ b/crates/axmos-db/src/runtime/builder.rs
@@ -84,9 +84,10 @@ impl ExecutorBuilder {
 
             PhysicalOperator::NestedLoopJoin(join_op) => {
                 require_children(children, 2, "NestedLoopJoin")?;
+                let left_cols = children[0].output_schema().num_columns();
                 let left = build_child(&children[0])?;
                 let right = build_child(&children[1])?;
-                Ok(Box::new(NestedLoopJoin::new(join_op, left, right)))
+                Ok(Box::new(NestedLoopJoin::new(join_op, left, right, left_cols)))
             }
             PhysicalOperator::HashJoin(join_op) => {
                 require_children(children, 2, "HashJoin")?;
diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 03b6d9a..691b3ac 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -14,7 +14,6 @@ use crate::{
     types::{Blob, DataType, DataTypeKind, bool::Bool},
 };
 use std::{
-    collections::HashSet,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
 };
@@ -119,7 +118,7 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
                 Ok(vec![DataType::Bool(Bool(
-                    matches!(evaluated[0], DataType::Null) || *negated,
+                    matches!(evaluated[0], DataType::Null) != *negated,
                 ))])
             }
             BoundExpression::Between {
@@ -137,24 +136,23 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
 
-                Ok(vec![DataType::Bool(Bool(
-                    (inner[0] >= low[0] && inner[0] <= high[0]) || *negated,
-                ))])
-            }
-            BoundExpression::Exists { query, negated } => {
-                todo!("Subquery evaluation is not yet implemented")
+                let compare = |op, bound| -> EvaluationResult<DataType> {
+                    Ok(self.eval_binary_op(inner.clone(), bound, op, None)?.remove(0))
+                };
+                let between = Self::logical_and(
+                    &compare(BinaryOperator::Ge, low)?,
+                    &compare(BinaryOperator::Le, high)?,
+                )?;
+                Ok(vec![Self::negate_if(between, *negated)])
             }
             BoundExpression::InList {
                 expr,
                 list,
                 negated,
             } => {
-                let mut set: HashSet<DataType> = HashSet::new();
+                let mut items = Vec::with_capacity(list.len());
                 for exp in list {
-                    let eval = self.evaluate(exp)?;
-                    for item in eval {
-                        set.insert(item);
-                    }
+                    items.extend(self.evaluate(exp)?);
                 }
 
                 let evaluated = self.evaluate(expr)?;
@@ -163,19 +161,41 @@ impl<'a> ExpressionEvaluator<'a> {
                         "cannot apply unary operators to lists of values!".to_string(),
                     ));
                 };
-                Ok(vec![DataType::Bool(Bool(
-                    set.contains(&evaluated[0]) || *negated,
-                ))])
+                Ok(vec![Self::negate_if(
+                    Self::is_in(&evaluated[0], &items),
+                    *negated,
+                )])
             }
-            BoundExpression::Subquery { query, result_type } => {
-                todo!("Subquery evaluation is not yet implemented")
-            }
-            BoundExpression::InSubquery {
-                expr,
-                query,
-                negated,
+            BoundExpression::Subquery { .. }
+            | BoundExpression::InSubquery { .. }
+            | BoundExpression::Exists { .. } => Err(EvaluationError::InvalidExpression(
+                "subqueries are not supported in expressions".to_string(),
+            )),
+            BoundExpression::Case {
+                operand,
+                when_then,
+                else_expr,
+                ..
             } => {
-                todo!("Subquery evaluation is not yet implemented")
+                let operand = operand.as_ref().map(|e| self.evaluate(e)).transpose()?;
+                for (when, then) in when_then {
+                    let matches = match &operand {
+                        None => self.evaluate_as_bool(when)?,
+                        Some(value) => {
+                            let when = self.evaluate(when)?;
+                            let equal =
+                                self.eval_binary_op(value.clone(), when, BinaryOperator::Eq, None)?;
+                            matches!(equal[..], [DataType::Bool(Bool(true))])
+                        }
+                    };
+                    if matches {
+                        return self.evaluate(then);
+                    }
+                }
+                match else_expr {
+                    Some(expr) => self.evaluate(expr),
+                    None => Ok(vec![DataType::Null]),
+                }
             }
             BoundExpression::Function {
                 func,
@@ -188,6 +208,16 @@ impl<'a> ExpressionEvaluator<'a> {
                     let evaluated = self.evaluate(expr)?;
                     arg_list.extend(evaluated);
                 }
+
+                // NULL arguments make the result NULL, but for the functions that deal with them
+                if !matches!(
+                    func,
+                    ScalarFunction::Coalesce | ScalarFunction::NullIf | ScalarFunction::Unknown(_)
+                ) && arg_list.iter().any(DataType::is_null)
+                {
+                    return Ok(vec![DataType::Null]);
+                }
+
                 match func {
                     ScalarFunction::Abs => {
                         let result = Abs::call(arg_list)?;
@@ -209,7 +239,6 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                     ScalarFunction::Coalesce => {
                         let result = Coalesce::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Concat => {
@@ -225,7 +254,6 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                     ScalarFunction::NullIf => {
                         let result = NullIf::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Round => {
@@ -269,7 +297,10 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                 }
             }
-            _ => unreachable!("Should not reach here when calling the evaluator"),
+            BoundExpression::Aggregate { .. } => Err(EvaluationError::InvalidExpression(
+                "aggregates are not allowed here".to_string(),
+            )),
+            BoundExpression::Star => Err(EvaluationError::InvalidExpression("*".to_string())),
         }
     }
 
@@ -300,46 +331,59 @@ impl<'a> ExpressionEvaluator<'a> {
         Ok(self.row[idx].clone())
     }
 
-    fn logical_and(left: &DataType, right: &DataType) -> TypeSystemResult<DataType> {
-        // Handle NULL semantics first (ANSI SQL logic)
-        if matches!(left, DataType::Null) || matches!(right, DataType::Null) {
-            return Ok(DataType::Null);
+    /// Reads an operand of a logical operator, where [None] stands for NULL.
+    fn as_logical(value: &DataType) -> TypeSystemResult<Option<bool>> {
+        match value {
+            DataType::Null => Ok(None),
+            DataType::Bool(Bool(b)) => Ok(Some(*b)),
+            other => Err(TypeSystemError::UnexpectedDataType(other.kind())),
         }
+    }
 
-        // Extract bool values
-        let l = left
-            .as_bool()
-            .ok_or(TypeSystemError::UnexpectedDataType(left.kind()))?
-            .value();
-        let r = right
-            .as_bool()
-            .ok_or(TypeSystemError::UnexpectedDataType(right.kind()))?
-            .value();
-
-        let result = l && r;
+    fn from_logical(value: Option<bool>) -> DataType {
+        value.map_or(DataType::Null, |b| DataType::Bool(Bool(b)))
+    }
 
-        Ok(DataType::Bool(Bool(result)))
+    /// FALSE AND NULL = FALSE, TRUE AND NULL = NULL
+    fn logical_and(left: &DataType, right: &DataType) -> TypeSystemResult<DataType> {
+        let result = match (Self::as_logical(left)?, Self::as_logical(right)?) {
+            (Some(false), _) | (_, Some(false)) => Some(false),
+            (Some(true), Some(true)) => Some(true),
+            _ => None,
+        };
+        Ok(Self::from_logical(result))
     }
 
+    /// TRUE OR NULL = TRUE, FALSE OR NULL = NULL
     fn logical_or(left: &DataType, right: &DataType) -> TypeSystemResult<DataType> {
-        // Handle NULL semantics first (ANSI SQL logic)
-        if matches!(left, DataType::Null) || matches!(right, DataType::Null) {
-            return Ok(DataType::Null);
-        }
-
-        // Extract bool values
-        let l = left
-            .as_bool()
-            .ok_or(TypeSystemError::UnexpectedDataType(left.kind()))?
-            .value();
-        let r = right
-            .as_bool()
-            .ok_or(TypeSystemError::UnexpectedDataType(right.kind()))?
-            .value();
+        let result = match (Self::as_logical(left)?, Self::as_logical(right)?) {
+            (Some(true), _) | (_, Some(true)) => Some(true),
+            (Some(false), Some(false)) => Some(false),
+            _ => None,
+        };
+        Ok(Self::from_logical(result))
+    }
 
-        let result = l || r;
+    /// Negates the result of a predicate: NOT NULL = NULL
+    fn negate_if(value: DataType, negated: bool) -> DataType {
+        match value {
+            DataType::Bool(Bool(b)) => DataType::Bool(Bool(b != negated)),
+            other => other,
+        }
+    }
 
-        Ok(DataType::Bool(Bool(result)))
+    /// Whether a value is in a list. The answer is NULL when a NULL leaves it undecided.
+    fn is_in(value: &DataType, items: &[DataType]) -> DataType {
+        if value.is_null() {
+            return DataType::Null;
+        }
+        if items.iter().any(|i| !i.is_null() && i == value) {
+            return DataType::Bool(Bool(true));
+        }
+        if items.iter().any(DataType::is_null) {
+            return DataType::Null;
+        }
+        DataType::Bool(Bool(false))
     }
 
     fn string_like(
@@ -356,7 +400,7 @@ impl<'a> ExpressionEvaluator<'a> {
 
         // Convert back to Blob and wrap as Text
         Ok(DataType::Bool(Bool(
-            !negated && lhs_blob.like(pattern_blob.as_str()?)?,
+            lhs_blob.like(pattern_blob.as_str()?)? != negated,
         )))
     }
 
@@ -390,33 +434,15 @@ impl<'a> ExpressionEvaluator<'a> {
             if matches!(left[0], DataType::Null)
                 || right.len() == 1 && matches!(right[0], DataType::Null)
             {
-                // AND/OR have special NULL handling
-                match bin_op {
-                    BinaryOperator::And => {
-                        // FALSE AND NULL = FALSE, TRUE AND NULL = NULL
-                        if let Some(Bool(b)) = left[0].as_bool()
-                            && !b
-                        {
-                            return Ok(vec![DataType::Bool(Bool(false))]);
-                        } else if let Some(Bool(b)) = right[0].as_bool()
-                            && !b
-                        {
-                            return Ok(vec![DataType::Bool(Bool(false))]);
-                        };
-                    }
-                    BinaryOperator::Or => {
-                        // TRUE OR NULL = TRUE, FALSE OR NULL = NULL
-                        if let Some(Bool(b)) = left[0].as_bool()
-                            && *b
-                        {
-                            return Ok(vec![DataType::Bool(Bool(true))]);
-                        } else if let Some(Bool(b)) = right[0].as_bool()
-                            && *b
-                        {
-                            return Ok(vec![DataType::Bool(Bool(true))]);
-                        };
-                    }
-                    _ => return Ok(vec![DataType::Null]),
+                // AND/OR have special NULL handling, and IS compares NULLs as values
+                if !matches!(
+                    bin_op,
+                    BinaryOperator::And
+                        | BinaryOperator::Or
+                        | BinaryOperator::Is
+                        | BinaryOperator::IsNot
+                ) {
+                    return Ok(vec![DataType::Null]);
                 }
             }
 
@@ -477,10 +503,10 @@ impl<'a> ExpressionEvaluator<'a> {
         } else if right.len() > 1 {
             match bin_op {
                 BinaryOperator::In => {
-                    return Ok(vec![DataType::Bool(Bool(right.contains(&left[0])))]);
+                    return Ok(vec![Self::is_in(&left[0], &right)]);
                 }
                 BinaryOperator::NotIn => {
-                    return Ok(vec![DataType::Bool(Bool(!right.contains(&left[0])))]);
+                    return Ok(vec![Self::negate_if(Self::is_in(&left[0], &right), true)]);
                 }
                 _ => Err(EvaluationError::InvalidExpression(
                     "only in and not in operators can be applied to lists".to_string(),
@@ -546,7 +572,12 @@ impl Callable for Abs {
         };
 
         let first = &args[0];
-        Ok(first.abs())
+        let result = first.abs();
+        // The smallest integer of a type has no counterpart in it
+        if result < DataType::Int(0.into()) {
+            return Err(EvaluationError::InvalidArguments(ScalarFunction::Abs));
+        }
+        Ok(result)
     }
 }
 
@@ -597,7 +628,7 @@ impl Callable for Sqrt {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
         };
 
-        let first = &args[0];
+        let first = args[0].try_cast(DataTypeKind::Double)?;
         Ok(first.sqrt())
     }
 }
@@ -606,14 +637,14 @@ struct Coalesce;
 
 impl Callable for Coalesce {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 2 {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
-        };
-
-        if args[0].is_null() {
-            return Ok(args[1].clone());
+        if args.is_empty() {
+            return Err(EvaluationError::InvalidArguments(ScalarFunction::Coalesce));
         }
-        Ok(args[0].clone())
+
+        Ok(args
+            .into_iter()
+            .find(|a| !a.is_null())
+            .unwrap_or(DataType::Null))
     }
 }
 
@@ -653,21 +684,14 @@ struct NullIf;
 
 impl Callable for NullIf {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !matches!(args[1], DataType::Bool(_)) {
+        let [value, other] = &args[..] else {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::NullIf));
         };
 
-        let condition = args[1]
-            .as_bool()
-            .ok_or(EvaluationError::TypeError(
-                TypeSystemError::UnexpectedDataType(args[1].kind()),
-            ))?
-            .value();
-
-        if condition {
+        if !value.is_null() && value == other {
             return Ok(DataType::Null);
         }
-        Ok(args[0].clone())
+        Ok(value.clone())
     }
 }
 
diff --git a/crates/axmos-db/src/runtime/ops/aggregate.rs b/crates/axmos-db/src/runtime/ops/aggregate.rs
index be4da18..6142a8c 100644
--- a/crates/axmos-db/src/runtime/ops/aggregate.rs
+++ b/crates/axmos-db/src/runtime/ops/aggregate.rs
@@ -1,5 +1,8 @@
 // src/runtime/ops/aggregate.rs
-use std::{collections::HashMap, vec::IntoIter};
+use std::{
+    collections::{HashMap, HashSet},
+    vec::IntoIter,
+};
 
 use crate::{
     runtime::{ExecutionStats, Executor, RuntimeError, RuntimeResult, eval::ExpressionEvaluator},
@@ -39,8 +42,8 @@ impl Accumulator {
 
     /// Accumulate a new value into the aggregate state.
     fn accumulate(&mut self, value: &DataType) -> RuntimeResult<()> {
-        // Skip NULL values for most aggregates except COUNT
-        if matches!(value, DataType::Null) && !matches!(self, Accumulator::Count { .. }) {
+        // Aggregates skip NULL values
+        if matches!(value, DataType::Null) {
             return Ok(());
         }
 
@@ -107,11 +110,6 @@ impl Accumulator {
                         let sum_f64 = s.to_f64().ok_or(RuntimeError::TypeError(
                             TypeSystemError::UnexpectedDataType(s.kind()),
                         ))?;
-                        if sum_f64.is_nan() {
-                            return Err(RuntimeError::Other(
-                                "Cannot compute average of non-numeric type".to_string(),
-                            ));
-                        }
                         Ok(DataType::Double((sum_f64 / count as f64).into()))
                     }
                     None => Ok(DataType::Null),
@@ -129,6 +127,8 @@ struct GroupBucket {
     key: Vec<DataType>,
     /// One accumulator per aggregate expression.
     accumulators: Vec<Accumulator>,
+    /// Values already accumulated by each DISTINCT aggregate.
+    seen: Vec<HashSet<DataType>>,
 }
 
 impl GroupBucket {
@@ -139,6 +139,7 @@ impl GroupBucket {
                 .iter()
                 .map(|agg| Accumulator::new(&agg.func))
                 .collect(),
+            seen: vec![HashSet::new(); aggregates.len()],
         }
     }
 }
@@ -207,16 +208,14 @@ impl<Child: Executor> HashAggregate<Child> {
         // Accumulate the row
         let evaluator = ExpressionEvaluator::new(&row, &self.input_schema);
         for (i, agg_expr) in self.aggregates.iter().enumerate() {
-            let value = if agg_expr.arg.is_none() {
-                DataType::Null
-            } else if let Some(ref arg) = agg_expr.arg {
-                match arg {
-                    BoundExpression::Star => DataType::Null,
-                    other => evaluator.evaluate_as_single_value(other)?,
-                }
-            } else {
-                DataType::Null
+            let value = match &agg_expr.arg {
+                // There is no value to look at: every row counts
+                None | Some(BoundExpression::Star) => DataType::Bool(true.into()),
+                Some(arg) => evaluator.evaluate_as_single_value(arg)?,
             };
+            if agg_expr.distinct && !bucket.seen[i].insert(value.clone()) {
+                continue;
+            }
             bucket.accumulators[i].accumulate(&value)?;
         }
 
@@ -237,7 +236,28 @@ impl<Child: Executor> HashAggregate<Child> {
         Ok(())
     }
 
-    /// Produce a result row from a finalized bucket.
+    /// Casts the value of an aggregate to the type of its output column.
+    /// MIN and MAX return one of the values of their argument as it is.
+    fn cast_aggregate(
+        &self,
+        aggregate: usize,
+        col_idx: usize,
+        value: DataType,
+    ) -> RuntimeResult<DataType> {
+        if matches!(
+            self.aggregates[aggregate].func,
+            AggregateFunction::Min | AggregateFunction::Max
+        ) {
+            return Ok(value);
+        }
+        let expected_type = self
+            .output_schema
+            .column(col_idx)
+            .ok_or(RuntimeError::ColumnNotFound(col_idx))?
+            .datatype();
+        Ok(value.try_cast(expected_type)?)
+    }
+
     /// Produce a result row from a finalized bucket.
     fn bucket_to_row(&self, bucket: GroupBucket) -> RuntimeResult<Row> {
         let mut values: Vec<DataType> =
@@ -245,28 +265,12 @@ impl<Child: Executor> HashAggregate<Child> {
 
         let num_group_keys = bucket.key.len();
 
-        // First, add group-by key values (cast to expected output type)
-        for (i, value) in bucket.key.into_iter().enumerate() {
-            let expected_type = self
-                .output_schema
-                .column(i)
-                .ok_or(RuntimeError::ColumnNotFound(i))?
-                .datatype();
-            let casted = value.try_cast(expected_type)?;
-            values.push(casted);
-        }
+        // First, add group-by key values
+        values.extend(bucket.key);
 
         // Then, add finalized aggregate values (cast to expected output type)
         for (i, acc) in bucket.accumulators.into_iter().enumerate() {
-            let value = acc.finalize()?;
-            let col_idx = num_group_keys + i;
-            let expected_type = self
-                .output_schema
-                .column(col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(i))?
-                .datatype();
-            let casted = value.try_cast(expected_type)?;
-            values.push(casted);
+            values.push(self.cast_aggregate(i, num_group_keys + i, acc.finalize()?)?);
         }
 
         Ok(Row::new(values.into_boxed_slice()))
@@ -299,14 +303,7 @@ impl<Child: Executor> Executor for HashAggregate<Child> {
                 let acc = Accumulator::new(&agg_expr.func);
                 let value = acc.finalize()?;
 
-                // Cast to expected output type
-                let expected_type = self
-                    .output_schema
-                    .column(i)
-                    .ok_or(RuntimeError::ColumnNotFound(i))?
-                    .datatype();
-                let casted = value.try_cast(expected_type)?;
-                values.push(casted);
+                values.push(self.cast_aggregate(i, i, value)?);
             }
 
             self.stats.rows_produced += 1;
diff --git a/crates/axmos-db/src/runtime/ops/join.rs b/crates/axmos-db/src/runtime/ops/join.rs
index 752ddcf..ce48305 100644
--- a/crates/axmos-db/src/runtime/ops/join.rs
+++ b/crates/axmos-db/src/runtime/ops/join.rs
@@ -176,12 +176,16 @@ pub(crate) struct NestedLoopJoin<Left: Executor, Right: Executor> {
 }
 
 impl<Left: Executor, Right: Executor> NestedLoopJoin<Left, Right> {
-    pub(crate) fn new(op: &NestedLoopJoinOp, left: Left, right: Right) -> Self {
-        let total_cols = op.output_schema.num_columns();
+    pub(crate) fn new(
+        op: &NestedLoopJoinOp,
+        left: Left,
+        right: Right,
+        left_cols: usize,
+    ) -> Self {
         Self {
             join_type: op.join_type,
             condition: op.condition.clone(),
-            left_cols: 0,
+            left_cols,
             output_schema: op.output_schema.clone(),
             left,
             right,
@@ -253,9 +257,6 @@ impl<Left: Executor, Right: Executor> Executor for NestedLoopJoin<Left, Right> {
                 match self.left.next()? {
                     Some(row) => {
                         self.stats.rows_scanned += 1;
-                        if self.left_cols == 0 {
-                            self.left_cols = row.len();
-                        }
                         self.current_left_row = Some(row);
                         self.right_idx = 0;
                         self.left_matched = false;
@@ -467,7 +468,13 @@ impl<Left: Executor, Right: Executor> Executor for HashJoin<Left, Right> {
             let left_row = self.current_left_row.as_ref().unwrap();
             let left_key = self.current_left_key.as_ref().unwrap();
 
-            if let Some(bucket) = self.hash_table.get_mut(left_key) {
+            // A key with a NULL matches nothing, not even itself.
+            let bucket = if left_key.iter().any(DataType::is_null) {
+                None
+            } else {
+                self.hash_table.get_mut(left_key)
+            };
+            if let Some(bucket) = bucket {
                 while self.current_bucket_idx < bucket.len() {
                     let right_row = &bucket.rows[self.current_bucket_idx];
                     self.current_bucket_idx += 1;
diff --git a/crates/axmos-db/src/sql/binder/analyzer.rs b/crates/axmos-db/src/sql/binder/analyzer.rs
index 679c66c..799bd34 100644
--- a/crates/axmos-db/src/sql/binder/analyzer.rs
+++ b/crates/axmos-db/src/sql/binder/analyzer.rs
@@ -386,7 +386,8 @@ impl Analyzer {
                     //  All columns selected, then we push all columns from all scopes to the schema.
                     if let Some(scope) = self.scopes.current() {
                         for entry in scope.iter() {
-                            for col in entry.schema.iter_columns() {
+                            let hidden = entry.table_id.is_some() as usize;
+                            for col in entry.schema.iter_columns().skip(hidden) {
                                 columns.push(col.clone());
                             }
                         }
@@ -591,7 +592,7 @@ impl Analyzer {
                 self.analyze_select(select)?;
 
                 // Verify column count matches
-                let select_col_count = self.count_select_columns(select);
+                let select_col_count = self.infer_select_schema(select)?.num_columns();
                 if select_col_count != target_columns.len() {
                     return Err(AnalyzerError::InvalidColumnCount((
                         target_columns.len(),
@@ -913,21 +914,4 @@ impl Analyzer {
             )),
         }
     }
-
-    /// Counts the number of output columns in a SELECT statement
-    fn count_select_columns(&self, stmt: &SelectStatement) -> usize {
-        let mut count = 0;
-        for item in &stmt.columns {
-            match item {
-                SelectItem::Star => {
-                    // Would need to expand star - for now approximate
-                    count += 1;
-                }
-                SelectItem::ExprWithAlias { .. } => {
-                    count += 1;
-                }
-            }
-        }
-        count
-    }
 }
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 161cad7..63a35ea 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -152,14 +152,7 @@ impl<'a> Binder<'a> {
             .transpose()?;
 
         // Bind SELECT columns and collect output info
-        let (columns, output_names) = self.bind_select_items(&stmt.columns)?;
-
-        // Register output aliases for ORDER BY resolution
-        for (i, item) in columns.iter().enumerate() {
-            if let Some(scope) = self.scopes.current_mut() {
-                scope.add_output_alias(output_names[i].clone(), item.expr.data_type());
-            }
-        }
+        let columns = self.bind_select_items(&stmt.columns)?;
 
         // Bind ORDER BY (can reference output aliases)
         let order_by: Vec<BoundOrderBy> = stmt
@@ -258,8 +251,11 @@ impl<'a> Binder<'a> {
             }
 
             TableReference::Subquery { query, alias } => {
-                // Subquery has its own scope
-                let bound_query = self.bind_select(query)?;
+                // Subquery has its own scope, and sees nothing of the ones around it
+                let outer = std::mem::replace(&mut self.scopes, ScopeStack::new());
+                let bound_query = self.bind_select(query);
+                self.scopes = outer;
+                let bound_query = bound_query?;
                 let schema = bound_query.schema.clone();
 
                 self.add_to_scope(ScopeEntry {
@@ -282,23 +278,22 @@ impl<'a> Binder<'a> {
     fn bind_select_items(
         &mut self,
         items: &[SelectItem],
-    ) -> BinderResult<(Vec<BoundSelectItem>, Vec<String>)> {
+    ) -> BinderResult<Vec<BoundSelectItem>> {
         let mut result = Vec::new();
-        let mut names = Vec::new();
         let mut output_idx = 0;
 
         for item in items {
             match item {
                 SelectItem::Star => {
                     // Expand star to all columns from all tables in scope
-                    // Skip column 0 (internal row_id) for each table
+                    // Skip column 0 (internal row_id) for each base table
                     if let Some(scope) = self.scopes.current() {
                         for entry in scope.iter() {
                             let offset = self.calculate_column_offset(entry.scope_index);
 
                             for (col_idx, col) in entry.schema.iter_columns().enumerate() {
                                 // Skip internal row_id column (always column 0)
-                                if col_idx == 0 {
+                                if col_idx == 0 && entry.table_id.is_some() {
                                     continue;
                                 }
 
@@ -314,7 +309,6 @@ impl<'a> Binder<'a> {
                                     output_idx,
                                     output_name: col.name().to_string(),
                                 });
-                                names.push(col.name().to_string());
                                 output_idx += 1;
                             }
                         }
@@ -330,15 +324,14 @@ impl<'a> Binder<'a> {
                     result.push(BoundSelectItem {
                         expr: bound_expr,
                         output_idx,
-                        output_name: output_name.clone(),
+                        output_name,
                     });
-                    names.push(output_name);
                     output_idx += 1;
                 }
             }
         }
 
-        Ok((result, names))
+        Ok(result)
     }
 
     /// Binds an [OrderByExpr] producing a [BoundOrderBy]
@@ -360,6 +353,28 @@ impl<'a> Binder<'a> {
             }
         }
 
+        // Or the position of an output column
+        let position = match order_by.expr {
+            Expr::Integer(n) => Some(n as f64),
+            Expr::Number(n) => Some(n),
+            _ => None,
+        };
+        if let Some(position) = position {
+            let item = select_items
+                .iter()
+                .find(|i| (i.output_idx + 1) as f64 == position)
+                .ok_or_else(|| {
+                    BinderError::InvalidExpression(format!(
+                        "ORDER BY position {position} is not in the select list"
+                    ))
+                })?;
+            return Ok(BoundOrderBy {
+                expr: item.expr.clone(),
+                asc: order_by.asc,
+                nulls_first: false,
+            });
+        }
+
         // Otherwise bind normally
         Ok(BoundOrderBy {
             expr: self.bind_expr(&order_by.expr)?,
@@ -815,9 +830,12 @@ impl<'a> Binder<'a> {
                     .transpose()?
                     .map(Box::new);
 
+                // The type has to hold the result of every branch
                 let result_type = when_then
-                    .first()
+                    .iter()
                     .map(|(_, t)| t.data_type())
+                    .chain(else_expr.as_ref().map(|e| e.data_type()))
+                    .reduce(|a, b| if a == b { a } else { self.wider_numeric(a, b) })
                     .unwrap_or(DataTypeKind::Null);
 
                 Ok(BoundExpression::Case {
@@ -1129,9 +1147,18 @@ impl<'a> Binder<'a> {
             ScalarFunction::Abs
             | ScalarFunction::Round
             | ScalarFunction::Ceil
-            | ScalarFunction::Floor
-            | ScalarFunction::Sqrt => DataTypeKind::Double,
-            ScalarFunction::Coalesce | ScalarFunction::NullIf | ScalarFunction::Cast => args
+            | ScalarFunction::Floor => args
+                .first()
+                .map(|a| a.data_type())
+                .filter(|k| k.is_numeric())
+                .unwrap_or(DataTypeKind::Double),
+            ScalarFunction::Sqrt => DataTypeKind::Double,
+            ScalarFunction::Coalesce => args
+                .iter()
+                .map(|a| a.data_type())
+                .reduce(|a, b| if a == b { a } else { self.wider_numeric(a, b) })
+                .unwrap_or(DataTypeKind::Null),
+            ScalarFunction::NullIf | ScalarFunction::Cast => args
                 .first()
                 .map(|a| a.data_type())
                 .unwrap_or(DataTypeKind::Null),
@@ -1139,12 +1166,16 @@ impl<'a> Binder<'a> {
         }
     }
 
+    /// Type of the arithmetic between two types: the widest of their family, or [Double] if any is floating point.
     fn wider_numeric(&self, a: DataTypeKind, b: DataTypeKind) -> DataTypeKind {
+        let unsigned = |k| matches!(k, DataTypeKind::UInt | DataTypeKind::BigUInt);
+        let integer = |k| unsigned(k) || matches!(k, DataTypeKind::Int | DataTypeKind::BigInt);
         match (a, b) {
-            (DataTypeKind::Double, _) | (_, DataTypeKind::Double) => DataTypeKind::Double,
-            (DataTypeKind::BigInt, _) | (_, DataTypeKind::BigInt) => DataTypeKind::BigInt,
-            (DataTypeKind::Int, _) | (_, DataTypeKind::Int) => DataTypeKind::Int,
-            _ => a,
+            (DataTypeKind::Null, other) | (other, DataTypeKind::Null) => other,
+            _ if a == b && integer(a) => a,
+            _ if unsigned(a) && unsigned(b) => DataTypeKind::BigUInt,
+            _ if integer(a) && integer(b) => DataTypeKind::BigInt,
+            _ => DataTypeKind::Double,
         }
     }
 
diff --git a/crates/axmos-db/src/sql/binder/bounds.rs b/crates/axmos-db/src/sql/binder/bounds.rs
index d2a9040..91f9938 100644
--- a/crates/axmos-db/src/sql/binder/bounds.rs
+++ b/crates/axmos-db/src/sql/binder/bounds.rs
@@ -161,6 +161,161 @@ impl BoundExpression {
             Self::Star => DataTypeKind::Null,
         }
     }
+
+    /// Rebuilds the expression, asking [replace] about each node from the top.
+    /// The children of a node are visited only when there is no replacement for it.
+    /// Fails as soon as [replace] does, and for subqueries, which are left alone by rewrites.
+    pub(crate) fn rewrite<E>(
+        &self,
+        replace: &mut dyn FnMut(&Self) -> Result<Option<Self>, E>,
+    ) -> Result<Self, E> {
+        if let Some(replacement) = replace(self)? {
+            return Ok(replacement);
+        }
+
+        let mut boxed = |e: &Self| e.rewrite(replace).map(Box::new);
+        Ok(match self {
+            Self::ColumnBinding(_)
+            | Self::Literal { .. }
+            | Self::Star
+            | Self::Subquery { .. }
+            | Self::Exists { .. } => self.clone(),
+            Self::BinaryOp {
+                left,
+                op,
+                right,
+                result_type,
+            } => Self::BinaryOp {
+                left: boxed(left)?,
+                op: *op,
+                right: boxed(right)?,
+                result_type: *result_type,
+            },
+            Self::UnaryOp {
+                op,
+                expr,
+                result_type,
+            } => Self::UnaryOp {
+                op: *op,
+                expr: boxed(expr)?,
+                result_type: *result_type,
+            },
+            Self::Function {
+                func,
+                args,
+                distinct,
+                return_type,
+            } => Self::Function {
+                func: func.clone(),
+                args: args
+                    .iter()
+                    .map(|a| a.rewrite(replace))
+                    .collect::<Result<_, E>>()?,
+                distinct: *distinct,
+                return_type: *return_type,
+            },
+            Self::Aggregate {
+                func,
+                arg,
+                distinct,
+                return_type,
+            } => Self::Aggregate {
+                func: *func,
+                arg: arg.as_ref().map(|a| boxed(a)).transpose()?,
+                distinct: *distinct,
+                return_type: *return_type,
+            },
+            Self::Case {
+                operand,
+                when_then,
+                else_expr,
+                result_type,
+            } => Self::Case {
+                operand: operand.as_ref().map(|e| boxed(e)).transpose()?,
+                else_expr: else_expr.as_ref().map(|e| boxed(e)).transpose()?,
+                when_then: when_then
+                    .iter()
+                    .map(|(w, t)| Ok((w.rewrite(replace)?, t.rewrite(replace)?)))
+                    .collect::<Result<_, E>>()?,
+                result_type: *result_type,
+            },
+            Self::InList {
+                expr,
+                list,
+                negated,
+            } => Self::InList {
+                expr: boxed(expr)?,
+                list: list
+                    .iter()
+                    .map(|e| e.rewrite(replace))
+                    .collect::<Result<_, E>>()?,
+                negated: *negated,
+            },
+            Self::InSubquery {
+                expr,
+                query,
+                negated,
+            } => Self::InSubquery {
+                expr: boxed(expr)?,
+                query: query.clone(),
+                negated: *negated,
+            },
+            Self::Between {
+                expr,
+                low,
+                high,
+                negated,
+            } => Self::Between {
+                expr: boxed(expr)?,
+                low: boxed(low)?,
+                high: boxed(high)?,
+                negated: *negated,
+            },
+            Self::IsNull { expr, negated } => Self::IsNull {
+                expr: boxed(expr)?,
+                negated: *negated,
+            },
+        })
+    }
+
+    /// Rebuilds the expression with each column index mapped by [index].
+    /// Returns [None] when a column has no counterpart or the expression holds a subquery.
+    pub(crate) fn map_columns(&self, index: &dyn Fn(usize) -> Option<usize>) -> Option<Self> {
+        self.rewrite(&mut |e| match e {
+            Self::ColumnBinding(c) => match index(c.column_idx) {
+                Some(column_idx) => Ok(Some(Self::ColumnBinding(Binding {
+                    column_idx,
+                    ..c.clone()
+                }))),
+                None => Err(()),
+            },
+            Self::Subquery { .. } | Self::Exists { .. } | Self::InSubquery { .. } => Err(()),
+            _ => Ok(None),
+        })
+        .ok()
+    }
+
+    /// Whether any node of the expression satisfies the predicate.
+    pub(crate) fn any(&self, predicate: &dyn Fn(&Self) -> bool) -> bool {
+        self.rewrite(&mut |e| if predicate(e) { Err(()) } else { Ok(None) })
+            .is_err()
+    }
+
+    /// Collects the conjuncts of a predicate.
+    pub(crate) fn conjuncts<'a>(&'a self, out: &mut Vec<&'a Self>) {
+        match self {
+            Self::BinaryOp {
+                op: BinaryOperator::And,
+                left,
+                right,
+                ..
+            } => {
+                left.conjuncts(out);
+                right.conjuncts(out);
+            }
+            _ => out.push(self),
+        }
+    }
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/crates/axmos-db/src/sql/parser/lexer.rs b/crates/axmos-db/src/sql/parser/lexer.rs
index 9f8c747..018a317 100644
--- a/crates/axmos-db/src/sql/parser/lexer.rs
+++ b/crates/axmos-db/src/sql/parser/lexer.rs
@@ -331,9 +331,18 @@ impl Lexer {
     /// If the next char is a [DOUBLE_QUOTE] tries to interpret anything until the next  [DOUBLE_QUOTE] as an identifier.
     /// Single-char tokens are pretty easy to peek any other way.
     pub fn next_token(&mut self) -> Token {
+        loop {
+            if let Some(token) = self.read_token() {
+                return token;
+            }
+        }
+    }
+
+    /// Reads what follows the cursor, which may be no token at all (comments and unknown characters).
+    fn read_token(&mut self) -> Option<Token> {
         self.skip_whitespace();
 
-        match self.current_char {
+        let token = match self.current_char {
             None => Token::Eof,
             Some(ESCAPE_QUOTE) => Token::StringLiteral(self.read_string()),
             Some(DOUBLE_QUOTE) => {
@@ -429,7 +438,7 @@ impl Lexer {
                         }
                         self.advance();
                     }
-                    self.next_token()
+                    return None;
                 } else {
                     Token::Minus
                 }
@@ -449,14 +458,15 @@ impl Lexer {
                     Token::Concat
                 } else {
                     // Single | is not a valid SQL operator, treat as unknown
-                    self.next_token()
+                    return None;
                 }
             }
             _ => {
                 self.advance();
-                self.next_token()
+                return None;
             }
-        }
+        };
+        Some(token)
     }
 
     /// Peek the next token, without advancing the cursor.
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index 1c94800..a602ec6 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -39,8 +39,17 @@ pub type ParseResult<T> = Result<T, ParserError>;
 pub struct Parser {
     lexer: Lexer,
     current_token: Token,
+    /// Number of expressions and queries being parsed.
+    depth: usize,
+    /// Height of the tallest expression parsed as part of the current one.
+    height: usize,
 }
 
+/// Limit on how deep the syntax tree of a statement gets, as it is visited recursively.
+const MAX_DEPTH: usize = 100;
+/// Limit on the number of tables of a query.
+const MAX_JOINED_TABLES: usize = 64;
+
 impl Parser {
     pub fn new(sql: &str) -> Self {
         let mut lexer = Lexer::new(sql);
@@ -48,6 +57,8 @@ impl Parser {
         Parser {
             lexer,
             current_token,
+            depth: 0,
+            height: 0,
         }
     }
 
@@ -88,6 +99,31 @@ impl Parser {
     /// Obtains the expression binding power using a Pratt Parsing approach.
     /// I recommend this read on Pratt Parsing: https://matklad.github.io/2020/04/13/simple-but-powerful-pratt-parsing.html
     fn parse_expr_bp(&mut self, min_bp: u8) -> ParseResult<Expr> {
+        self.nested(|parser| {
+            let siblings = mem::replace(&mut parser.height, 0);
+            let expr = parser.parse_operators(min_bp)?;
+            parser.height = siblings.max(parser.height + 1);
+            Ok(expr)
+        })
+    }
+
+    /// Parses an element of the syntax tree that can hold others like it.
+    fn nested<T>(&mut self, parse: impl FnOnce(&mut Self) -> ParseResult<T>) -> ParseResult<T> {
+        self.depth += 1;
+        let parsed = if self.depth > MAX_DEPTH {
+            Err(Self::too_complex())
+        } else {
+            parse(self)
+        };
+        self.depth -= 1;
+        parsed
+    }
+
+    fn too_complex() -> ParserError {
+        ParserError::InvalidExpression("the statement is too complex".to_string())
+    }
+
+    fn parse_operators(&mut self, min_bp: u8) -> ParseResult<Expr> {
         let mut lhs = self.parse_prefix()?;
 
         while let Some((l_bp, r_bp)) = self.infix_binding_power() {
@@ -96,6 +132,10 @@ impl Parser {
             }
 
             lhs = self.parse_infix(lhs, r_bp)?;
+            self.height += 1;
+            if self.depth + self.height > MAX_DEPTH {
+                return Err(Self::too_complex());
+            }
         }
 
         Ok(lhs)
@@ -149,9 +189,6 @@ impl Parser {
                             table: name,
                             column,
                         })
-                    } else if self.current_token == Token::Star {
-                        self.next_token();
-                        Ok(Expr::Star) // Actually should be QualifiedStar in SELECT
                     } else {
                         Err(ParserError::InvalidExpression(
                             "expected column name after '.'".to_string(),
@@ -254,12 +291,12 @@ impl Parser {
             // Token::Or => Some((1, 2)),
             // Token::And => Some((3, 4)),
             // ´´´
-            // By giving here the NOT operator a precedence of three, we are making sur it binds tighter than  AND & OR,
+            // By giving here the NOT operator a precedence of four (the one of the right operand of AND), we are making sur it binds tighter than  AND & OR,
             // but looselier than +, - , * an unary operators.
             // This way, the expression: [NOT a AND b OR c], will be parsed as: (OR (AND (NOT a) b) c)
             Token::Not => {
                 self.next_token();
-                let expr = self.parse_expr_bp(3)?; // NOT precedence
+                let expr = self.parse_expr_bp(4)?; // NOT precedence
                 Ok(Expr::UnaryOp {
                     op: UnaryOperator::Not,
                     expr: Box::new(expr),
@@ -564,6 +601,15 @@ impl Parser {
     }
 
     pub fn parse(&mut self) -> ParseResult<Statement> {
+        let statement = self.parse_statement()?;
+        while self.consume_if(&Token::Semicolon) {}
+        match self.current_token {
+            Token::Eof => Ok(statement),
+            _ => Err(ParserError::UnexpectedToken(self.current_token.to_string())),
+        }
+    }
+
+    fn parse_statement(&mut self) -> ParseResult<Statement> {
         match &self.current_token {
             Token::With => Ok(Statement::With(self.parse_with_statement()?)),
             Token::Select => Ok(Statement::Select(self.parse_select_statement()?)),
@@ -1177,6 +1223,10 @@ impl Parser {
     /// LIMIT n;
     /// ```
     fn parse_select_statement(&mut self) -> ParseResult<SelectStatement> {
+        self.nested(Self::parse_select_clauses)
+    }
+
+    fn parse_select_clauses(&mut self) -> ParseResult<SelectStatement> {
         self.expect(Token::Select)?;
 
         let distinct = self.consume_if(&Token::Distinct);
@@ -1340,7 +1390,11 @@ impl Parser {
         let mut table_ref = self.parse_single_table_ref()?;
 
         // Parse optional JOINs and comma-separated tables
-        loop {
+        for tables in 1.. {
+            if tables > MAX_JOINED_TABLES {
+                return Err(Self::too_complex());
+            }
+
             // Check for comma first (implicit cross join)
             if self.consume_if(&Token::Comma) {
                 let right = self.parse_single_table_ref()?;
diff --git a/crates/axmos-db/src/sql/planner/logical.rs b/crates/axmos-db/src/sql/planner/logical.rs
index b1c9739..72180fa 100644
--- a/crates/axmos-db/src/sql/planner/logical.rs
+++ b/crates/axmos-db/src/sql/planner/logical.rs
@@ -268,6 +268,8 @@ pub struct JoinOp {
     pub left_schema: Schema,
     pub right_schema: Schema,
     pub output_schema: Schema,
+    /// Set on the joins that result from swapping the inputs of another one.
+    pub commuted: bool,
 }
 
 impl JoinOp {
@@ -284,6 +286,7 @@ impl JoinOp {
             left_schema,
             right_schema,
             output_schema,
+            commuted: false,
         }
     }
 
@@ -295,58 +298,46 @@ impl JoinOp {
 
     /// Checks if this is an equi-join.
     pub fn is_equi_join(&self) -> bool {
-        self.condition
-            .as_ref()
-            .map_or(false, |c| Self::is_equi_condition(c))
+        !self.extract_equi_keys().is_empty()
     }
 
-    fn is_equi_condition(expr: &BoundExpression) -> bool {
-        match expr {
-            BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    matches!(left.as_ref(), BoundExpression::ColumnBinding(_))
-                        && matches!(right.as_ref(), BoundExpression::ColumnBinding(_))
-                }
-                BinaryOperator::And => {
-                    Self::is_equi_condition(left) && Self::is_equi_condition(right)
-                }
-                _ => false,
-            },
-            _ => false,
-        }
-    }
-
-    /// Extracts equi-join keys as (left_col, right_col) pairs.
+    /// Extracts equi-join keys as (left_col, right_col) pairs of indices in the combined schema.
+    /// There are none unless the whole condition compares a column of each side for equality.
     pub fn extract_equi_keys(&self) -> Vec<(usize, usize)> {
-        let mut keys = Vec::new();
+        let left_cols = self.left_schema.num_columns();
+        let mut conjuncts = Vec::new();
         if let Some(cond) = &self.condition {
-            Self::collect_equi_keys(cond, &mut keys);
+            cond.conjuncts(&mut conjuncts);
         }
-        keys
+
+        conjuncts
+            .into_iter()
+            .map(|c| Self::equi_key(c, left_cols))
+            .collect::<Option<Vec<_>>>()
+            .unwrap_or_default()
     }
 
-    fn collect_equi_keys(expr: &BoundExpression, keys: &mut Vec<(usize, usize)>) {
-        match expr {
-            BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    if let (BoundExpression::ColumnBinding(l), BoundExpression::ColumnBinding(r)) =
-                        (left.as_ref(), right.as_ref())
-                    {
-                        keys.push((l.column_idx, r.column_idx));
-                    }
-                }
-                BinaryOperator::And => {
-                    Self::collect_equi_keys(left, keys);
-                    Self::collect_equi_keys(right, keys);
-                }
-                _ => {}
-            },
-            _ => {}
-        }
+    fn equi_key(expr: &BoundExpression, left_cols: usize) -> Option<(usize, usize)> {
+        let BoundExpression::BinaryOp {
+            op: BinaryOperator::Eq,
+            left,
+            right,
+            ..
+        } = expr
+        else {
+            return None;
+        };
+        let (BoundExpression::ColumnBinding(l), BoundExpression::ColumnBinding(r)) =
+            (left.as_ref(), right.as_ref())
+        else {
+            return None;
+        };
+
+        let (first, second) = (
+            l.column_idx.min(r.column_idx),
+            l.column_idx.max(r.column_idx),
+        );
+        (first < left_cols && left_cols <= second).then_some((first, second))
     }
 }
 
diff --git a/crates/axmos-db/src/sql/planner/memo.rs b/crates/axmos-db/src/sql/planner/memo.rs
index 4617d12..3c09985 100644
--- a/crates/axmos-db/src/sql/planner/memo.rs
+++ b/crates/axmos-db/src/sql/planner/memo.rs
@@ -110,7 +110,7 @@ impl Group {
 /// The memo structure for storing and deduplicating expressions.
 pub struct Memo {
     groups: Vec<Group>,
-    expr_to_group: HashMap<u64, GroupId>,
+    expr_to_group: HashMap<u64, Vec<ExprId>>,
 }
 
 impl Memo {
@@ -134,13 +134,13 @@ impl Memo {
     pub fn insert_logical_expr(&mut self, expr: LogicalExpr) -> GroupId {
         let hash = self.compute_expr_hash(&expr);
 
-        if let Some(&group_id) = self.expr_to_group.get(&hash) {
+        if let Some(group_id) = self.find_equivalent(hash, &expr) {
             return group_id;
         }
 
         let group_id = self.new_group(expr.properties.clone());
-        self.expr_to_group.insert(hash, group_id);
-        self.groups[group_id.0].add_logical_expr(expr);
+        let expr_id = self.groups[group_id.0].add_logical_expr(expr);
+        self.expr_to_group.entry(hash).or_default().push(expr_id);
         group_id
     }
 
@@ -153,11 +153,25 @@ impl Memo {
         expr: LogicalExpr,
     ) -> Option<ExprId> {
         let hash = self.compute_expr_hash(&expr);
-        if self.expr_to_group.contains_key(&hash) {
+        if self.find_equivalent(hash, &expr).is_some() {
             return None;
         }
-        self.expr_to_group.insert(hash, group_id);
-        Some(self.groups[group_id.0].add_logical_expr(expr))
+        let expr_id = self.groups[group_id.0].add_logical_expr(expr);
+        self.expr_to_group.entry(hash).or_default().push(expr_id);
+        Some(expr_id)
+    }
+
+    /// Finds the group of an expression with the same operator over the same children.
+    /// The hash leaves parts of some operators out, so it only selects candidates.
+    fn find_equivalent(&self, hash: u64, expr: &LogicalExpr) -> Option<GroupId> {
+        self.expr_to_group
+            .get(&hash)?
+            .iter()
+            .find(|id| {
+                self.get_logical_expr(**id)
+                    .is_some_and(|e| e.op == expr.op && e.children == expr.children)
+            })
+            .map(|id| id.group_id)
     }
 
     /// Adds a physical expression to a group.
diff --git a/crates/axmos-db/src/sql/planner/plan.rs b/crates/axmos-db/src/sql/planner/plan.rs
index d91c573..c5b3510 100644
--- a/crates/axmos-db/src/sql/planner/plan.rs
+++ b/crates/axmos-db/src/sql/planner/plan.rs
@@ -4,13 +4,13 @@
 //! logical operators that can be optimized by the Cascades optimizer.
 
 use crate::{
-    schema::{Schema, catalog::StatisticsProvider},
+    schema::{Schema, base::Column, catalog::StatisticsProvider},
     sql::{
         binder::bounds::*,
         parser::ast::JoinType,
         planner::{PlannerError, PlannerResult},
     },
-    types::ObjectId,
+    types::{DataTypeKind, ObjectId},
 };
 
 use super::logical::*;
@@ -54,7 +54,8 @@ impl<'a> Planner<'a> {
         // FROM clause
         let from_group = match &select.from {
             Some(table_ref) => self.build_table_ref(table_ref)?,
-            None => self.build_empty(&select.schema)?,
+            // Without tables there is one row, with no columns
+            None => self.build_values(&[vec![]], &Schema::new_table(vec![]))?,
         };
 
         // WHERE clause
@@ -63,33 +64,41 @@ impl<'a> Planner<'a> {
             None => from_group,
         };
 
-        // GROUP BY / aggregates
-        let aggregated = if !select.group_by.is_empty() || self.has_aggregates(&select.columns) {
-            self.build_aggregate(filtered, &select.group_by, &select.columns, &select.schema)?
+        // GROUP BY / aggregates. The clauses below it refer to the output of the aggregation.
+        let mut columns: Vec<_> = select.columns.iter().map(|c| c.expr.clone()).collect();
+        let mut having = select.having.clone();
+        let mut order_by = select.order_by.clone();
+        let mut outputs: Vec<&mut BoundExpression> = columns
+            .iter_mut()
+            .chain(&mut having)
+            .chain(order_by.iter_mut().map(|o| &mut o.expr))
+            .collect();
+        let is_aggregate = |e: &BoundExpression| matches!(e, BoundExpression::Aggregate { .. });
+        let aggregated = if !select.group_by.is_empty()
+            || select.having.is_some()
+            || outputs.iter().any(|e| e.any(&is_aggregate))
+        {
+            self.build_aggregate(filtered, &select.group_by, &mut outputs)?
         } else {
             filtered
         };
 
         // HAVING clause
-        let having_applied = match &select.having {
-            Some(pred) => self.build_filter(aggregated, pred.clone())?,
+        let having_applied = match having {
+            Some(pred) => self.build_filter(aggregated, pred)?,
             None => aggregated,
         };
 
         // ORDER BY (must go before the projection since it needs the full input schema)
-        let sorted = if !select.order_by.is_empty() {
+        let sorted = if !order_by.is_empty() {
             let input_props = self.get_group_properties(having_applied)?;
-            self.build_sort(having_applied, &select.order_by, &input_props.schema)?
+            self.build_sort(having_applied, &order_by, &input_props.schema)?
         } else {
             having_applied
         };
 
         // SELECT projection (after sort)
-        let projected = if !self.has_aggregates(&select.columns) {
-            self.build_project(sorted, &select.columns, &select.schema)?
-        } else {
-            sorted
-        };
+        let projected = self.build_project(sorted, columns, &select.schema)?;
 
         // DISTINCT
         let distinct_applied = if select.distinct {
@@ -165,17 +174,14 @@ impl<'a> Planner<'a> {
     fn build_project(
         &mut self,
         input: GroupId,
-        columns: &[BoundSelectItem],
+        columns: Vec<BoundExpression>,
         output_schema: &Schema,
     ) -> PlannerResult<GroupId> {
         let input_props = self.get_group_properties(input)?;
 
         let expressions: Vec<ProjectExpr> = columns
-            .iter()
-            .map(|item| ProjectExpr {
-                expr: item.expr.clone(),
-                alias: None,
-            })
+            .into_iter()
+            .map(|expr| ProjectExpr { expr, alias: None })
             .collect();
 
         let op = LogicalOperator::Project(ProjectOp::new(
@@ -200,25 +206,76 @@ impl<'a> Planner<'a> {
         self.insert_with_properties(op, vec![left, right])
     }
 
+    /// Builds an aggregation that outputs the grouping keys followed by the aggregates found in [outputs],
+    /// which are rewritten to refer to the columns of that output.
     fn build_aggregate(
         &mut self,
         input: GroupId,
         group_by: &[BoundExpression],
-        columns: &[BoundSelectItem],
-        output_schema: &Schema,
+        outputs: &mut [&mut BoundExpression],
     ) -> PlannerResult<GroupId> {
         let input_props = self.get_group_properties(input)?;
 
-        let mut aggregates = Vec::new();
-        for (idx, item) in columns.iter().enumerate() {
-            self.collect_aggregates(&item.expr, idx, &mut aggregates);
+        let output_column = |column_idx: usize, data_type: DataTypeKind| {
+            BoundExpression::ColumnBinding(Binding {
+                table_id: None,
+                scope_index: 0,
+                column_idx,
+                data_type,
+            })
+        };
+
+        let mut aggregates: Vec<AggregateExpr> = Vec::new();
+        let mut output_types: Vec<_> = group_by.iter().map(|e| e.data_type()).collect();
+        for output in outputs.iter_mut() {
+            **output = output.rewrite(&mut |e| {
+                if let Some(key) = group_by.iter().position(|k| k == e) {
+                    return Ok(Some(output_column(key, e.data_type())));
+                }
+                match e {
+                    BoundExpression::Aggregate {
+                        func,
+                        arg,
+                        distinct,
+                        return_type,
+                    } => {
+                        let arg = arg.as_deref().cloned();
+                        let known = aggregates
+                            .iter()
+                            .position(|a| a.func == *func && a.arg == arg && a.distinct == *distinct);
+                        let idx = known.unwrap_or_else(|| {
+                            aggregates.push(AggregateExpr {
+                                func: *func,
+                                arg,
+                                distinct: *distinct,
+                                output_idx: group_by.len() + aggregates.len(),
+                            });
+                            output_types.push(*return_type);
+                            aggregates.len() - 1
+                        });
+                        Ok(Some(output_column(group_by.len() + idx, *return_type)))
+                    }
+                    BoundExpression::ColumnBinding(_) => Err(PlannerError::Other(
+                        "a column must appear in the GROUP BY clause or be used in an aggregate"
+                            .to_string(),
+                    )),
+                    _ => Ok(None),
+                }
+            })?;
         }
 
+        let output_schema = Schema::new_table(
+            output_types
+                .into_iter()
+                .enumerate()
+                .map(|(i, kind)| Column::new_with_defaults(kind, &format!("column_{i}")))
+                .collect(),
+        );
         let op = LogicalOperator::Aggregate(AggregateOp::new(
             group_by.to_vec(),
             aggregates,
             input_props.schema.clone(),
-            output_schema.clone(),
+            output_schema,
         ));
         self.insert_with_properties(op, vec![input])
     }
@@ -396,123 +453,6 @@ impl<'a> Planner<'a> {
         Ok(format!("table_{}", table_id))
     }
 
-    fn has_aggregates(&self, columns: &[BoundSelectItem]) -> bool {
-        columns
-            .iter()
-            .any(|item| self.contains_aggregate(&item.expr))
-    }
-
-    fn contains_aggregate(&self, expr: &BoundExpression) -> bool {
-        match expr {
-            BoundExpression::Aggregate { .. } => true,
-            BoundExpression::BinaryOp { left, right, .. } => {
-                self.contains_aggregate(left) || self.contains_aggregate(right)
-            }
-            BoundExpression::UnaryOp { expr, .. } => self.contains_aggregate(expr),
-            BoundExpression::Case {
-                operand,
-                when_then,
-                else_expr,
-                ..
-            } => {
-                operand
-                    .as_ref()
-                    .map_or(false, |e| self.contains_aggregate(e))
-                    || when_then
-                        .iter()
-                        .any(|(c, r)| self.contains_aggregate(c) || self.contains_aggregate(r))
-                    || else_expr
-                        .as_ref()
-                        .map_or(false, |e| self.contains_aggregate(e))
-            }
-            BoundExpression::Function { args, .. } => {
-                args.iter().any(|a| self.contains_aggregate(a))
-            }
-            BoundExpression::InList { expr, list, .. } => {
-                self.contains_aggregate(expr) || list.iter().any(|e| self.contains_aggregate(e))
-            }
-            BoundExpression::InSubquery { expr, .. } => self.contains_aggregate(expr),
-            BoundExpression::Between {
-                expr, low, high, ..
-            } => {
-                self.contains_aggregate(expr)
-                    || self.contains_aggregate(low)
-                    || self.contains_aggregate(high)
-            }
-            BoundExpression::IsNull { expr, .. } => self.contains_aggregate(expr),
-            _ => false,
-        }
-    }
-
-    fn collect_aggregates(
-        &self,
-        expr: &BoundExpression,
-        output_idx: usize,
-        aggregates: &mut Vec<AggregateExpr>,
-    ) {
-        match expr {
-            BoundExpression::Aggregate {
-                func,
-                arg,
-                distinct,
-                ..
-            } => {
-                aggregates.push(AggregateExpr {
-                    func: *func,
-                    arg: arg.as_ref().map(|a| *a.clone()),
-                    distinct: *distinct,
-                    output_idx,
-                });
-            }
-            BoundExpression::BinaryOp { left, right, .. } => {
-                self.collect_aggregates(left, output_idx, aggregates);
-                self.collect_aggregates(right, output_idx, aggregates);
-            }
-            BoundExpression::UnaryOp { expr, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-            }
-            BoundExpression::Case {
-                operand,
-                when_then,
-                else_expr,
-                ..
-            } => {
-                if let Some(op) = operand {
-                    self.collect_aggregates(op, output_idx, aggregates);
-                }
-                for (cond, result) in when_then {
-                    self.collect_aggregates(cond, output_idx, aggregates);
-                    self.collect_aggregates(result, output_idx, aggregates);
-                }
-                if let Some(e) = else_expr {
-                    self.collect_aggregates(e, output_idx, aggregates);
-                }
-            }
-            BoundExpression::Function { args, .. } => {
-                for arg in args {
-                    self.collect_aggregates(arg, output_idx, aggregates);
-                }
-            }
-            BoundExpression::InList { expr, list, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-                for item in list {
-                    self.collect_aggregates(item, output_idx, aggregates);
-                }
-            }
-            BoundExpression::Between {
-                expr, low, high, ..
-            } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-                self.collect_aggregates(low, output_idx, aggregates);
-                self.collect_aggregates(high, output_idx, aggregates);
-            }
-            BoundExpression::IsNull { expr, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-            }
-            _ => {}
-        }
-    }
-
     /// Converts a memo group to a LogicalPlan tree (for debugging/explain).
     pub fn build_logical_plan(&self, group_id: GroupId) -> PlannerResult<LogicalPlan> {
         self.build_logical_plan_recursive(group_id, &mut Vec::new())
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 84cddf6..bbe9bb5 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -14,7 +14,11 @@ use crate::{
 };
 
 use super::{
-    PlannerError, PlannerResult, logical::*, memo::Memo, physical::*, prop::RequiredProperties,
+    PlannerError, PlannerResult,
+    logical::*,
+    memo::{GroupId, Memo},
+    physical::*,
+    prop::{LogicalProperties, RequiredProperties},
 };
 
 /// Base trait for all rules.
@@ -77,101 +81,12 @@ pub fn implementation_rules() -> Vec<Box<dyn ImplementationRule>> {
 
 // Helper functions
 
-/// Swaps left/right in a join condition.
-fn swap_join_condition(cond: &BoundExpression) -> BoundExpression {
-    match cond {
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => {
-            let swapped_op = match op {
-                BinaryOperator::Eq => BinaryOperator::Eq,
-                BinaryOperator::Lt => BinaryOperator::Gt,
-                BinaryOperator::Gt => BinaryOperator::Lt,
-                BinaryOperator::Le => BinaryOperator::Ge,
-                BinaryOperator::Ge => BinaryOperator::Le,
-                BinaryOperator::And => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::And,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                BinaryOperator::Or => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::Or,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                _ => *op,
-            };
-            BoundExpression::BinaryOp {
-                left: right.clone(),
-                op: swapped_op,
-                right: left.clone(),
-                result_type: *result_type,
-            }
-        }
-        _ => cond.clone(),
-    }
-}
-
-/// Shifts column indices by offset.
-fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            let new_idx = c.column_idx as i32 + offset;
-            if new_idx < 0 {
-                None
-            } else {
-                Some(BoundExpression::ColumnBinding(Binding {
-                    column_idx: new_idx as usize,
-                    ..*c
-                }))
-            }
-        }
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => Some(BoundExpression::BinaryOp {
-            left: Box::new(shift_columns(left, offset)?),
-            op: *op,
-            right: Box::new(shift_columns(right, offset)?),
-            result_type: *result_type,
-        }),
-        BoundExpression::Literal { .. } => Some(expr.clone()),
-        _ => Some(expr.clone()),
-    }
-}
-
-/// Checks if all columns in expr have index >= min.
-fn all_columns_ge(expr: &BoundExpression, min: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= min,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            all_columns_ge(left, min) && all_columns_ge(right, min)
-        }
-        BoundExpression::Literal { .. } => true,
-        _ => true,
-    }
-}
+/// Estimated fraction of the rows that pass a filter pushed down by a rule.
+const PUSHED_FILTER_SELECTIVITY: f64 = 0.3;
 
-/// Checks if any column in expr is in range [start, end).
-fn any_column_in_range(expr: &BoundExpression, start: usize, end: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= start && c.column_idx < end,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            any_column_in_range(left, start, end) || any_column_in_range(right, start, end)
-        }
-        _ => false,
-    }
+/// Rebases an expression that only uses the columns in [start, end) on the first of them.
+fn rebase_columns(expr: &BoundExpression, start: usize, end: usize) -> Option<BoundExpression> {
+    expr.map_columns(&|c| (start..end).contains(&c).then(|| c - start))
 }
 
 /// Combines predicates with AND.
@@ -184,195 +99,29 @@ fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
     })
 }
 
-/// Collects predicates for columns >= offset.
-fn collect_predicates_for_range(
-    expr: &BoundExpression,
-    offset: usize,
-    out: &mut Vec<BoundExpression>,
-) {
-    match expr {
-        BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
-            left,
-            right,
-            ..
-        } => {
-            collect_predicates_for_range(left, offset, out);
-            collect_predicates_for_range(right, offset, out);
-        }
-        _ => {
-            if all_columns_ge(expr, offset) {
-                if let Some(s) = shift_columns(expr, -(offset as i32)) {
-                    out.push(s);
-                }
-            }
-        }
-    }
+/// Whether an expression refers to any column.
+fn uses_columns(expr: &BoundExpression) -> bool {
+    expr.any(&|e| matches!(e, BoundExpression::ColumnBinding(_)))
 }
 
-/// Collects predicates involving columns in range [start, end).
-fn collect_predicates_involving_range(
-    expr: &BoundExpression,
-    start: usize,
-    end: usize,
-    out: &mut Vec<BoundExpression>,
-) {
-    match expr {
-        BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
-            left,
-            right,
-            ..
-        } => {
-            collect_predicates_involving_range(left, start, end, out);
-            collect_predicates_involving_range(right, start, end, out);
-        }
-        _ => {
-            if any_column_in_range(expr, start, end) {
-                out.push(expr.clone());
-            }
-        }
-    }
-}
-
-/// Extracts the B⋈C condition for associativity transform.
-fn extract_bc_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-    b_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = outer {
-        collect_predicates_for_range(c, a_cols, &mut preds);
-    }
-    if let Some(c) = inner {
-        if let Some(s) = shift_columns(c, -(a_cols as i32)) {
-            preds.push(s);
-        }
-    }
-    combine_predicates(preds)
-}
-
-/// Extracts the A condition for associativity transform.
-fn extract_a_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = inner {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    if let Some(c) = outer {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    combine_predicates(preds)
-}
-
-/// Classifies a predicate into left-only, right-only, or join predicates.
-fn classify_predicates(
-    expr: &BoundExpression,
-    left_cols: usize,
-    left: &mut Vec<BoundExpression>,
-    right: &mut Vec<BoundExpression>,
-    join: &mut Vec<BoundExpression>,
-) {
-    match expr {
-        BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
-            left: l,
-            right: r,
-            ..
-        } => {
-            classify_predicates(l, left_cols, left, right, join);
-            classify_predicates(r, left_cols, left, right, join);
-        }
-        _ => {
-            let (ul, ur) = check_column_usage(expr, left_cols);
-            if ul && !ur {
-                left.push(expr.clone());
-            } else if ur && !ul {
-                right.push(expr.clone());
-            } else {
-                join.push(expr.clone());
-            }
-        }
-    }
-}
-
-/// Checks if expression uses left/right columns.
-fn check_column_usage(expr: &BoundExpression, left_cols: usize) -> (bool, bool) {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            if c.column_idx < left_cols {
-                (true, false)
-            } else {
-                (false, true)
-            }
-        }
-        BoundExpression::BinaryOp { left, right, .. } => {
-            let (l1, r1) = check_column_usage(left, left_cols);
-            let (l2, r2) = check_column_usage(right, left_cols);
-            (l1 || l2, r1 || r2)
-        }
-        BoundExpression::UnaryOp { expr, .. } | BoundExpression::IsNull { expr, .. } => {
-            check_column_usage(expr, left_cols)
-        }
-        BoundExpression::InList { expr, list, .. } => {
-            let (mut l, mut r) = check_column_usage(expr, left_cols);
-            for i in list {
-                let (l2, r2) = check_column_usage(i, left_cols);
-                l = l || l2;
-                r = r || r2;
-            }
-            (l, r)
-        }
-        BoundExpression::Between {
-            expr, low, high, ..
-        } => {
-            let (l1, r1) = check_column_usage(expr, left_cols);
-            let (l2, r2) = check_column_usage(low, left_cols);
-            let (l3, r3) = check_column_usage(high, left_cols);
-            (l1 || l2 || l3, r1 || r2 || r3)
-        }
-        _ => (false, false),
-    }
-}
-
-/// Rewrites column references using a mapping.
-fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> BoundExpression {
-    match expr {
-        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
-            column_idx: mapping.get(c.column_idx).copied().unwrap_or(c.column_idx),
-            ..*c
-        }),
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => BoundExpression::BinaryOp {
-            left: Box::new(rewrite_with_mapping(left, mapping)),
-            op: *op,
-            right: Box::new(rewrite_with_mapping(right, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::UnaryOp {
-            op,
-            expr,
-            result_type,
-        } => BoundExpression::UnaryOp {
-            op: *op,
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            negated: *negated,
-        },
-        _ => expr.clone(),
-    }
+/// Inserts a filter over a group, unless there is nothing to filter by.
+fn insert_filter(memo: &mut Memo, preds: Vec<BoundExpression>, input: GroupId) -> GroupId {
+    let Some(pred) = combine_predicates(preds) else {
+        return input;
+    };
+    let mut props = memo
+        .get_group(input)
+        .map(|g| g.logical_props.clone())
+        .unwrap_or_default();
+    props.cardinality = (props.cardinality * PUSHED_FILTER_SELECTIVITY).max(1.0);
+
+    memo.insert_logical_expr(
+        LogicalExpr::new(
+            LogicalOperator::Filter(FilterOp::new(pred, props.schema.clone())),
+            vec![input],
+        )
+        .with_properties(props),
+    )
 }
 
 /// Creates a column reference expression.
@@ -409,11 +158,12 @@ impl TransformationRule for JoinCommutativityRule {
     fn matches(&self, expr: &LogicalExpr, _memo: &Memo) -> bool {
         matches!(
             &expr.op,
-            LogicalOperator::Join(j) if j.join_type == JoinType::Inner || j.join_type == JoinType::Cross
+            LogicalOperator::Join(j)
+                if !j.commuted && (j.join_type == JoinType::Inner || j.join_type == JoinType::Cross)
         )
     }
 
-    fn apply(&self, expr: &LogicalExpr, _memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
+    fn apply(&self, expr: &LogicalExpr, memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
         let LogicalOperator::Join(join) = &expr.op else {
             return Ok(vec![]);
         };
@@ -421,19 +171,60 @@ impl TransformationRule for JoinCommutativityRule {
             return Ok(vec![]);
         }
 
-        let swapped_cond = join.condition.as_ref().map(swap_join_condition);
-        let new_join = JoinOp::new(
+        // The columns of the right input come first once the inputs are swapped.
+        let left_cols = join.left_schema.num_columns();
+        let right_cols = join.right_schema.num_columns();
+        let swapped = |c: usize| {
+            if c < left_cols {
+                c + right_cols
+            } else {
+                c - left_cols
+            }
+        };
+
+        let swapped_cond = match &join.condition {
+            Some(cond) => match cond.map_columns(&|c| Some(swapped(c))) {
+                Some(cond) => Some(cond),
+                None => return Ok(vec![]),
+            },
+            None => None,
+        };
+        let mut new_join = JoinOp::new(
             join.join_type,
             swapped_cond,
             join.right_schema.clone(),
             join.left_schema.clone(),
         );
+        new_join.commuted = true;
 
-        Ok(vec![
+        let swapped_schema = new_join.output_schema.clone();
+        let mut swapped_props = expr.properties.clone();
+        swapped_props.schema = swapped_schema.clone();
+        let swapped_group = memo.insert_logical_expr(
             LogicalExpr::new(
                 LogicalOperator::Join(new_join),
                 vec![expr.children[1], expr.children[0]],
             )
+            .with_properties(swapped_props),
+        );
+
+        // The expressions of a group have the same output, so restore the order of the columns.
+        let expressions = (0..left_cols + right_cols)
+            .map(|c| ProjectExpr {
+                expr: create_column_ref(swapped(c), &swapped_schema),
+                alias: None,
+            })
+            .collect();
+
+        Ok(vec![
+            LogicalExpr::new(
+                LogicalOperator::Project(ProjectOp::new(
+                    expressions,
+                    swapped_schema,
+                    join.output_schema.clone(),
+                )),
+                vec![swapped_group],
+            )
             .with_properties(expr.properties.clone()),
         ])
     }
@@ -509,32 +300,50 @@ impl TransformationRule for JoinAssociativityRule {
             .map(|g| g.logical_props.clone())
             .unwrap_or_default();
 
+        // All the columns of the conditions keep their position in A⋈(B⋈C).
         let a_cols = a_props.schema.num_columns();
-        let b_cols = b_props.schema.num_columns();
+        let total_cols =
+            a_cols + b_props.schema.num_columns() + c_props.schema.num_columns();
+        let mut conjuncts = Vec::new();
+        for condition in [&inner.condition, &outer.condition].into_iter().flatten() {
+            condition.conjuncts(&mut conjuncts);
+        }
+
+        let mut bc_preds = Vec::new();
+        let mut a_preds = Vec::new();
+        for conjunct in conjuncts {
+            match rebase_columns(conjunct, a_cols, total_cols) {
+                Some(pred) => bc_preds.push(pred),
+                None => a_preds.push(conjunct.clone()),
+            }
+        }
 
         // Build B⋈C
-        let bc_expr = {
-            let bc_cond = extract_bc_condition(&outer.condition, &inner.condition, a_cols, b_cols);
-            let bc_join = JoinOp::new(
-                JoinType::Inner,
-                bc_cond,
-                b_props.schema.clone(),
-                c_props.schema.clone(),
-            );
-            LogicalExpr::new(LogicalOperator::Join(bc_join), vec![b_group, c_group])
+        let bc_join = JoinOp::new(
+            JoinType::Inner,
+            combine_predicates(bc_preds),
+            b_props.schema.clone(),
+            c_props.schema.clone(),
+        );
+        let bc_schema = bc_join.output_schema.clone();
+        let mut bc_props = LogicalProperties::new(bc_schema.clone());
+        bc_props.cardinality = match &bc_join.condition {
+            Some(_) => b_props.cardinality.max(c_props.cardinality),
+            None => b_props.cardinality * c_props.cardinality,
         };
-
-        let a_cond = extract_a_condition(&outer.condition, &inner.condition, a_cols);
-
-        let bc_group = memo.insert_logical_expr(bc_expr);
+        bc_props.avg_row_size = b_props.avg_row_size + c_props.avg_row_size;
+        let bc_group = memo.insert_logical_expr(
+            LogicalExpr::new(LogicalOperator::Join(bc_join), vec![b_group, c_group])
+                .with_properties(bc_props),
+        );
 
         // Build A⋈(B⋈C)
-        let bc_schema = memo
-            .get_group(bc_group)
-            .map(|g| g.logical_props.schema.clone())
-            .ok_or(PlannerError::InvalidState)?;
-
-        let a_bc_join = JoinOp::new(JoinType::Inner, a_cond, a_props.schema.clone(), bc_schema);
+        let a_bc_join = JoinOp::new(
+            JoinType::Inner,
+            combine_predicates(a_preds),
+            a_props.schema.clone(),
+            bc_schema,
+        );
 
         Ok(vec![
             LogicalExpr::new(LogicalOperator::Join(a_bc_join), vec![a_group, bc_group])
@@ -661,56 +470,36 @@ impl TransformationRule for FilterPushdownJoinRule {
         let right_group = child_expr.children[1];
         let left_cols = join.left_schema.num_columns();
 
+        let total_cols = left_cols + right_schema.num_columns();
         let mut left_preds = Vec::new();
         let mut right_preds = Vec::new();
-        let mut join_preds = Vec::new();
-        classify_predicates(
-            &filter.predicate,
-            left_cols,
-            &mut left_preds,
-            &mut right_preds,
-            &mut join_preds,
-        );
+        let mut join_preds: Vec<_> = join.condition.iter().cloned().collect();
+        let mut conjuncts = Vec::new();
+        filter.predicate.conjuncts(&mut conjuncts);
+        for conjunct in conjuncts {
+            if !uses_columns(conjunct) {
+                join_preds.push(conjunct.clone());
+            } else if let Some(pred) = rebase_columns(conjunct, 0, left_cols) {
+                left_preds.push(pred);
+            } else if let Some(pred) = rebase_columns(conjunct, left_cols, total_cols) {
+                right_preds.push(pred);
+            } else {
+                join_preds.push(conjunct.clone());
+            }
+        }
 
         if left_preds.is_empty() && right_preds.is_empty() {
             return Ok(vec![]);
         }
 
-        // New join condition
-        let new_cond =
-            combine_predicates(join.condition.iter().cloned().chain(join_preds).collect());
-
-        // Push left predicates
-        let new_left = if !left_preds.is_empty() {
-            let pred = combine_predicates(left_preds).unwrap();
-            let f = FilterOp::new(pred, left_schema.clone());
-            memo.insert_logical_expr(LogicalExpr::new(
-                LogicalOperator::Filter(f),
-                vec![left_group],
-            ))
-        } else {
-            left_group
+        // A cross join with a condition is an inner one.
+        let new_cond = combine_predicates(join_preds);
+        let join_type = match new_cond {
+            Some(_) => JoinType::Inner,
+            None => join_type,
         };
-
-        // Push right predicates (shift indices)
-        let new_right = if !right_preds.is_empty() {
-            let shifted: Vec<_> = right_preds
-                .into_iter()
-                .filter_map(|p| shift_columns(&p, -(left_cols as i32)))
-                .collect();
-            if let Some(pred) = combine_predicates(shifted) {
-                let f = FilterOp::new(pred, right_schema.clone());
-                memo.insert_logical_expr(LogicalExpr::new(
-                    LogicalOperator::Filter(f),
-                    vec![right_group],
-                ))
-            } else {
-                right_group
-            }
-        } else {
-            right_group
-        };
-
+        let new_left = insert_filter(memo, left_preds, left_group);
+        let new_right = insert_filter(memo, right_preds, right_group);
         let new_join = JoinOp::new(join_type, new_cond, left_schema, right_schema);
 
         Ok(vec![
@@ -785,13 +574,17 @@ impl TransformationRule for FilterPushdownProjectRule {
             }
         }
 
-        let new_pred = rewrite_with_mapping(&filter.predicate, &mapping);
-        let new_filter = FilterOp::new(new_pred, project_input_schema.clone());
-
-        let filter_group = memo.insert_logical_expr(LogicalExpr::new(
-            LogicalOperator::Filter(new_filter),
-            child_expr.children.clone(),
-        ));
+        let input = *child_expr
+            .children
+            .first()
+            .ok_or(PlannerError::InvalidState)?;
+        let Some(new_pred) = filter
+            .predicate
+            .map_columns(&|c| mapping.get(c).copied())
+        else {
+            return Ok(vec![]);
+        };
+        let filter_group = insert_filter(memo, vec![new_pred], input);
 
         // Build the new project operator with the pushed down filter
         let new_project =
@@ -1016,6 +809,11 @@ impl ImplementationRule for JoinRule {
                     .collect();
                 let output_ordering: Vec<_> = left_keys.iter().map(|e| (e.clone(), true)).collect();
 
+                // Merge join does not produce the unmatched rows of the right side.
+                if !matches!(join.join_type, JoinType::Inner | JoinType::Left) {
+                    return Ok(impls);
+                }
+
                 let mut merge_expr = PhysicalExpr::new(
                     PhysicalOperator::MergeJoin(MergeJoinOp {
                         join_type: join.join_type,
@@ -1436,6 +1234,16 @@ impl FilterToIndexScanRule {
             return None;
         }
 
+        // The index has no entries for the rows with a NULL in any of its columns.
+        let bounds: Vec<_> = range_start.iter().chain(&range_end).flatten().collect();
+        let selects_null = indexed_columns.iter().enumerate().any(|(position, &column)| {
+            scan.schema.column(column).is_none_or(|c| !c.is_non_null)
+                && !bounds.iter().any(|b| b.col_idx == position)
+        });
+        if selects_null {
+            return None;
+        }
+
         let mut index_scan = IndexScanOp::new(
             scan.table_id,
             index_handle.id(),
@@ -1659,7 +1467,8 @@ impl FilterToIndexScanRule {
 
     fn extract_literal(expr: &BoundExpression) -> Option<crate::DataType> {
         match expr {
-            BoundExpression::Literal { value } => Some(value.clone()),
+            // A comparison with NULL selects nothing, which no bound can express.
+            BoundExpression::Literal { value } if !value.is_null() => Some(value.clone()),
             _ => None,
         }
     }
diff --git a/crates/axmos-db/src/types/blob.rs b/crates/axmos-db/src/types/blob.rs
index a0f33a0..de96b63 100644
--- a/crates/axmos-db/src/types/blob.rs
+++ b/crates/axmos-db/src/types/blob.rs
@@ -397,93 +397,50 @@ impl<'a> BlobRef<'a> {
 
     /// Internal pattern matching implementation.
     fn match_pattern(data: &[u8], pattern: &[u8]) -> bool {
+        // Position of the data and the pattern to resume from when a % has to take one more character.
+        let mut resume: Option<(usize, usize)> = None;
         let mut data_idx = 0;
         let mut pattern_idx = 0;
-        let mut backtrack_data_idx = 0;
-        let mut backtrack_pattern_idx = 0;
-        let mut in_escape = false;
-
-        while data_idx < data.len() {
-            if pattern_idx < pattern.len() {
-                let pattern_char = pattern[pattern_idx];
-
-                if in_escape {
-                    // Escaped character, match literally
-                    if data[data_idx] != pattern_char {
-                        // No match, try backtracking if we have a % to expand
-                        if backtrack_pattern_idx > 0 {
-                            backtrack_data_idx += 1;
-                            data_idx = backtrack_data_idx;
-                            pattern_idx = backtrack_pattern_idx;
-                            continue;
-                        }
-                        return false;
-                    }
-                    data_idx += 1;
-                    pattern_idx += 1;
-                    in_escape = false;
-                    continue;
-                }
 
-                match pattern_char {
-                    b'\\' => {
-                        // Next character is escaped
-                        in_escape = true;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    b'%' => {
-                        // % matches any sequence
-                        // Store backtrack positions
-                        backtrack_data_idx = data_idx;
-                        backtrack_pattern_idx = pattern_idx + 1;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    b'_' => {
-                        // _ matches any single character
-                        data_idx += 1;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    _ => {
-                        // Literal character
-                        if data[data_idx] != pattern_char {
-                            // No match, try backtracking if we have a % to expand
-                            if backtrack_pattern_idx > 0 {
-                                backtrack_data_idx += 1;
-                                data_idx = backtrack_data_idx;
-                                pattern_idx = backtrack_pattern_idx;
-                                continue;
-                            }
-                            return false;
-                        }
-                        data_idx += 1;
-                        pattern_idx += 1;
-                    }
+        loop {
+            let remaining = &data[data_idx..];
+            let matched = match pattern[pattern_idx..] {
+                [] => remaining.is_empty().then_some((0, 0)),
+                [b'%', ..] => {
+                    resume = Some((data_idx, pattern_idx + 1));
+                    Some((0, 1))
+                }
+                [b'_', ..] if !remaining.is_empty() => Some((Self::char_len(remaining), 1)),
+                [b'\\', c, ..] => (remaining.first() == Some(&c)).then_some((1, 2)),
+                // An escape at the end of the pattern has nothing to escape
+                [b'\\'] => remaining.is_empty().then_some((0, 1)),
+                [c, ..] => (c != b'_' && remaining.first() == Some(&c)).then_some((1, 1)),
+            };
+
+            match (matched, resume) {
+                (Some((0, 0)), _) => return true,
+                (Some((data_step, pattern_step)), _) => {
+                    data_idx += data_step;
+                    pattern_idx += pattern_step;
                 }
-            } else if backtrack_pattern_idx > 0 {
-                // Pattern exhausted but we have a % to expand
-                backtrack_data_idx += 1;
-                data_idx = backtrack_data_idx;
-                pattern_idx = backtrack_pattern_idx;
-            } else {
-                // Pattern exhausted but data remains (only OK if trailing %)
-                // Check if pattern ends with %
-                if pattern.last() == Some(&b'%') {
-                    return true;
+                (None, Some((resume_data, resume_pattern))) if resume_data < data.len() => {
+                    let next = resume_data + Self::char_len(&data[resume_data..]);
+                    resume = Some((next, resume_pattern));
+                    (data_idx, pattern_idx) = (next, resume_pattern);
                 }
-                return false;
+                (None, _) => return false,
             }
         }
+    }
 
-        // Skip any trailing % in pattern
-        while pattern_idx < pattern.len() && pattern[pattern_idx] == b'%' {
-            pattern_idx += 1;
-        }
-
-        // Check if we consumed all pattern
-        pattern_idx == pattern.len()
+    /// Length of the character at the start of some text, or of a byte that starts none.
+    fn char_len(data: &[u8]) -> usize {
+        let continuation = data[1..]
+            .iter()
+            .take(3)
+            .take_while(|b| **b & 0xC0 == 0x80)
+            .count();
+        1 + if data[0] >= 0xC0 { continuation } else { 0 }
     }
 
     /// Case-insensitive LIKE comparison (for text blobs).
-- 
2.43.0


From 06fd35f6eebd7ebd45e38553d42a72e3af9f5a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 20/30] fix: merge join skips NULL keys, decimal literals stay
 floating point, unary minus binds tightest

---
 crates/axmos-db/src/runtime/ops/join.rs    | 233 +++++----------------
 crates/axmos-db/src/sql/binder/analyzer.rs |   6 +-
 crates/axmos-db/src/sql/binder/binder.rs   |  29 ++-
 crates/axmos-db/src/sql/parser/ast.rs      |   3 +
 crates/axmos-db/src/sql/parser/lexer.rs    |  11 +-
 crates/axmos-db/src/sql/parser/mod.rs      |  13 +-
 6 files changed, 98 insertions(+), 197 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/join.rs b/crates/axmos-db/src/runtime/ops/join.rs
index ce48305..fc7adc6 100644
--- a/crates/axmos-db/src/runtime/ops/join.rs
+++ b/crates/axmos-db/src/runtime/ops/join.rs
@@ -520,7 +520,6 @@ pub(crate) struct MergeJoin<Left: Executor, Right: Executor> {
     join_type: JoinType,
     left_keys: Vec<BoundExpression>,
     right_keys: Vec<BoundExpression>,
-    output_schema: Schema,
     left_schema: Schema,
     right_schema: Schema,
 
@@ -530,16 +529,14 @@ pub(crate) struct MergeJoin<Left: Executor, Right: Executor> {
     current_left: Option<Row>,
     current_right: Option<Row>,
 
+    /// Right rows with the key in [buffering_key]
     right_buffer: Vec<Row>,
     right_buffer_idx: usize,
     buffering_key: Option<Vec<DataType>>,
 
-    left_exhausted: bool,
-    right_exhausted: bool,
+    /// Whether [right_buffer_idx] belongs to the current left row
+    positioned: bool,
     left_matched: bool,
-    right_matched: Vec<bool>,
-    emitting_unmatched_right: bool,
-    unmatched_right_idx: usize,
 
     stats: ExecutionStats,
 }
@@ -556,7 +553,6 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
             join_type: op.join_type,
             left_keys: op.left_keys.clone(),
             right_keys: op.right_keys.clone(),
-            output_schema: op.output_schema.clone(),
             left_schema,
             right_schema,
             left,
@@ -566,12 +562,8 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
             right_buffer: Vec::new(),
             right_buffer_idx: 0,
             buffering_key: None,
-            left_exhausted: false,
-            right_exhausted: false,
+            positioned: false,
             left_matched: false,
-            right_matched: Vec::new(),
-            emitting_unmatched_right: false,
-            unmatched_right_idx: 0,
             stats: ExecutionStats::default(),
         }
     }
@@ -580,11 +572,9 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
         &self.stats
     }
 
-    fn compare_keys(&self, left_keys: &[DataType], right_keys: &[DataType]) -> Ordering {
+    /// Order of two keys without NULLs.
+    fn compare_keys(left_keys: &[DataType], right_keys: &[DataType]) -> Ordering {
         for (l, r) in left_keys.iter().zip(right_keys.iter()) {
-            if matches!(l, DataType::Null) || matches!(r, DataType::Null) {
-                return Ordering::Greater;
-            }
             match l.partial_cmp(r) {
                 Some(Ordering::Equal) => continue,
                 Some(ord) => return ord,
@@ -595,61 +585,47 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
     }
 
     fn advance_left(&mut self) -> RuntimeResult<()> {
-        match self.left.next()? {
-            Some(row) => {
-                self.stats.rows_scanned += 1;
-                self.current_left = Some(row);
-            }
-            None => {
-                self.left_exhausted = true;
-                self.current_left = None;
-            }
-        }
+        self.current_left = self.left.next()?;
+        self.stats.rows_scanned += self.current_left.is_some() as u64;
+        self.left_matched = false;
+        self.positioned = false;
         Ok(())
     }
 
     fn advance_right(&mut self) -> RuntimeResult<()> {
-        match self.right.next()? {
-            Some(row) => {
-                self.stats.rows_scanned += 1;
-                self.current_right = Some(row);
-
-                if matches!(self.join_type, JoinType::Right | JoinType::Full) {
-                    self.right_matched.push(false);
-                }
-            }
-            None => {
-                self.right_exhausted = true;
-                self.current_right = None;
-            }
-        }
+        self.current_right = self.right.next()?;
+        self.stats.rows_scanned += self.current_right.is_some() as u64;
         Ok(())
     }
 
-    fn left_cols(&self) -> usize {
-        self.left_schema.num_columns()
-    }
-
-    fn right_cols(&self) -> usize {
-        self.right_schema.num_columns()
-    }
+    /// Buffers the right rows that match a left key. Neither side has NULLs that match anything.
+    fn position(&mut self, left_keys: Vec<DataType>) -> RuntimeResult<()> {
+        self.positioned = true;
+        if left_keys.iter().any(DataType::is_null) {
+            self.right_buffer_idx = self.right_buffer.len();
+            return Ok(());
+        }
 
-    fn buffer_matching_right_rows(&mut self, target_keys: &[DataType]) -> RuntimeResult<()> {
-        self.right_buffer.clear();
         self.right_buffer_idx = 0;
+        if let Some(key) = &self.buffering_key {
+            if keys_match(&left_keys, key) {
+                return Ok(());
+            }
+        }
 
-        while let Some(ref right_row) = self.current_right {
+        self.right_buffer.clear();
+        while let Some(right_row) = &self.current_right {
             let right_keys = extract_key(right_row, &self.right_keys, &self.right_schema)?;
-
-            if keys_match(target_keys, &right_keys) {
-                self.right_buffer.push(right_row.clone());
-                self.advance_right()?;
-            } else {
-                break;
+            if !right_keys.iter().any(DataType::is_null) {
+                match Self::compare_keys(&left_keys, &right_keys) {
+                    Ordering::Less => break,
+                    Ordering::Equal => self.right_buffer.push(right_row.clone()),
+                    Ordering::Greater => {}
+                }
             }
+            self.advance_right()?;
         }
-
-        self.buffering_key = Some(target_keys.to_vec());
+        self.buffering_key = Some(left_keys);
         Ok(())
     }
 }
@@ -666,145 +642,30 @@ impl<Left: Executor, Right: Executor> Executor for MergeJoin<Left, Right> {
     }
 
     fn next(&mut self) -> RuntimeResult<Option<Row>> {
-        if self.emitting_unmatched_right {
-            while self.unmatched_right_idx < self.right_matched.len() {
-                let idx = self.unmatched_right_idx;
-                self.unmatched_right_idx += 1;
-
-                if !self.right_matched[idx] && idx < self.right_buffer.len() {
-                    let row = nulls_with_right(&self.right_buffer[idx], self.left_cols());
-                    self.stats.rows_produced += 1;
-                    return Ok(Some(row));
-                }
-            }
-            return Ok(None);
-        }
-
-        loop {
-            if self.left_exhausted {
-                if self.current_left.is_some() {
-                    if !self.left_matched
-                        && matches!(self.join_type, JoinType::Left | JoinType::Full)
-                    {
-                        let left_row = self.current_left.take().unwrap();
-                        let row = left_with_nulls(&left_row, self.right_cols());
-                        self.stats.rows_produced += 1;
-                        return Ok(Some(row));
-                    }
-                    self.current_left = None;
-                }
-
-                if matches!(self.join_type, JoinType::Right | JoinType::Full) {
-                    self.emitting_unmatched_right = true;
-                    return self.next();
-                }
-                return Ok(None);
-            }
-
-            if self.right_exhausted && self.right_buffer.is_empty() {
-                if let Some(ref left_row) = self.current_left {
-                    if !self.left_matched
-                        && matches!(self.join_type, JoinType::Left | JoinType::Full)
-                    {
-                        let row = left_with_nulls(left_row, self.right_cols());
-                        self.current_left = None;
-                        self.advance_left()?;
-                        self.left_matched = false;
-                        self.stats.rows_produced += 1;
-                        return Ok(Some(row));
-                    }
-                }
-
-                self.advance_left()?;
-                self.left_matched = false;
+        while let Some(left_row) = &self.current_left {
+            if !self.positioned {
+                let left_keys = extract_key(left_row, &self.left_keys, &self.left_schema)?;
+                self.position(left_keys)?;
                 continue;
             }
 
-            if self.right_buffer_idx < self.right_buffer.len() {
-                let left_row = self.current_left.as_ref().unwrap();
-                let right_row = &self.right_buffer[self.right_buffer_idx];
-                self.right_buffer_idx += 1;
-
+            if let Some(right_row) = self.right_buffer.get(self.right_buffer_idx) {
                 let combined = combine_rows(left_row, right_row);
+                self.right_buffer_idx += 1;
                 self.left_matched = true;
                 self.stats.rows_produced += 1;
                 return Ok(Some(combined));
             }
 
-            if self.buffering_key.is_some() {
-                if !self.left_matched && matches!(self.join_type, JoinType::Left | JoinType::Full) {
-                    let left_row = self.current_left.as_ref().unwrap();
-                    let row = left_with_nulls(left_row, self.right_cols());
-                    self.advance_left()?;
-                    self.left_matched = false;
-                    self.buffering_key = None;
-                    self.right_buffer.clear();
-                    self.right_buffer_idx = 0;
-                    self.stats.rows_produced += 1;
-                    return Ok(Some(row));
-                }
-
-                self.advance_left()?;
-                self.left_matched = false;
-
-                if self.left_exhausted {
-                    continue;
-                }
-
-                let left_row = self.current_left.as_ref().unwrap();
-                let left_keys = extract_key(left_row, &self.left_keys, &self.left_schema)?;
-
-                if keys_match(&left_keys, self.buffering_key.as_ref().unwrap()) {
-                    self.right_buffer_idx = 0;
-                    continue;
-                } else {
-                    self.buffering_key = None;
-                    self.right_buffer.clear();
-                    self.right_buffer_idx = 0;
-                }
-            }
-
-            let left_row = self.current_left.as_ref().unwrap();
-            let left_keys = extract_key(left_row, &self.left_keys, &self.left_schema)?;
-
-            if self.right_exhausted {
-                if !self.left_matched && matches!(self.join_type, JoinType::Left | JoinType::Full) {
-                    let row = left_with_nulls(left_row, self.right_cols());
-                    self.advance_left()?;
-                    self.left_matched = false;
-                    self.stats.rows_produced += 1;
-                    return Ok(Some(row));
-                }
-                self.advance_left()?;
-                self.left_matched = false;
-                continue;
-            }
-
-            let right_row = self.current_right.as_ref().unwrap();
-            let right_keys = extract_key(right_row, &self.right_keys, &self.right_schema)?;
-
-            match self.compare_keys(&left_keys, &right_keys) {
-                Ordering::Less => {
-                    if !self.left_matched
-                        && matches!(self.join_type, JoinType::Left | JoinType::Full)
-                    {
-                        let row = left_with_nulls(left_row, self.right_cols());
-                        self.advance_left()?;
-                        self.left_matched = false;
-                        self.stats.rows_produced += 1;
-                        return Ok(Some(row));
-                    }
-                    self.advance_left()?;
-                    self.left_matched = false;
-                }
-                Ordering::Greater => {
-                    self.advance_right()?;
-                }
-                Ordering::Equal => {
-                    self.buffer_matching_right_rows(&left_keys)?;
-                }
+            let unmatched = !self.left_matched && matches!(self.join_type, JoinType::Left);
+            let row = unmatched.then(|| left_with_nulls(left_row, self.right_schema.num_columns()));
+            self.advance_left()?;
+            if row.is_some() {
+                self.stats.rows_produced += 1;
+                return Ok(row);
             }
         }
+        Ok(None)
     }
 
     fn close(&mut self) -> RuntimeResult<()> {
diff --git a/crates/axmos-db/src/sql/binder/analyzer.rs b/crates/axmos-db/src/sql/binder/analyzer.rs
index 799bd34..83e8619 100644
--- a/crates/axmos-db/src/sql/binder/analyzer.rs
+++ b/crates/axmos-db/src/sql/binder/analyzer.rs
@@ -293,6 +293,7 @@ impl Analyzer {
             // Literals don't need validation
             Expr::Number(_)
             | Expr::Integer(_)
+            | Expr::Decimal(_)
             | Expr::String(_)
             | Expr::Boolean(_)
             | Expr::Null
@@ -335,7 +336,7 @@ impl Analyzer {
     /// Validates literal values against expected column types
     fn validate_return_type(&mut self, dtype: DataTypeKind, value: &Expr) -> AnalyzerResult<()> {
         match value {
-            Expr::Number(f) => match dtype {
+            Expr::Number(f) | Expr::Decimal(f) => match dtype {
                 DataTypeKind::Int => {
                     Self::validate_bounds(*f, i32::MIN as f64, i32::MAX as f64)?;
                 }
@@ -407,7 +408,7 @@ impl Analyzer {
     /// Infers the data type of an expression.
     fn infer_expr_type(&self, expr: &Expr) -> AnalyzerResult<DataTypeKind> {
         match expr {
-            Expr::Number(_) => Ok(DataTypeKind::Double),
+            Expr::Number(_) | Expr::Decimal(_) => Ok(DataTypeKind::Double),
             Expr::Integer(_) => Ok(DataTypeKind::BigInt),
             Expr::String(_) => Ok(DataTypeKind::Blob),
             Expr::Boolean(_) => Ok(DataTypeKind::Bool),
@@ -880,6 +881,7 @@ impl Analyzer {
         match expr {
             Expr::Number(_)
             | Expr::Integer(_)
+            | Expr::Decimal(_)
             | Expr::String(_)
             | Expr::Boolean(_)
             | Expr::Null => Ok(()),
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 63a35ea..5130388 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -134,14 +134,14 @@ impl<'a> Binder<'a> {
         let where_clause = stmt
             .where_clause
             .as_ref()
-            .map(|e| self.bind_expr(e))
+            .map(|e| self.bind_row_expr(e))
             .transpose()?;
 
         // Bind GROUP BY
         let group_by: Vec<BoundExpression> = stmt
             .group_by
             .iter()
-            .map(|e| self.bind_expr(e))
+            .map(|e| self.bind_row_expr(e))
             .collect::<BinderResult<_>>()?;
 
         // Bind HAVING
@@ -238,7 +238,7 @@ impl<'a> Binder<'a> {
             } => {
                 let left_bound = self.bind_table_ref(left)?;
                 let right_bound = self.bind_table_ref(right)?;
-                let condition = on.as_ref().map(|e| self.bind_expr(e)).transpose()?;
+                let condition = on.as_ref().map(|e| self.bind_row_expr(e)).transpose()?;
                 let schema = self.merge_schemas(left_bound.schema(), right_bound.schema());
 
                 Ok(BoundTableRef::Join {
@@ -505,7 +505,7 @@ impl<'a> Binder<'a> {
                     .ok_or_else(|| BinderError::ColumnNotFound(sc.column.clone()))?;
                 Ok(BoundAssignment {
                     column_idx: col_idx,
-                    value: self.bind_expr(&sc.value)?,
+                    value: self.bind_row_expr(&sc.value)?,
                 })
             })
             .collect::<BinderResult<_>>()?;
@@ -514,7 +514,7 @@ impl<'a> Binder<'a> {
         let filter = stmt
             .where_clause
             .as_ref()
-            .map(|e| self.bind_expr(e))
+            .map(|e| self.bind_row_expr(e))
             .transpose()?;
 
         self.scopes.pop();
@@ -550,7 +550,7 @@ impl<'a> Binder<'a> {
         let filter = stmt
             .where_clause
             .as_ref()
-            .map(|e| self.bind_expr(e))
+            .map(|e| self.bind_row_expr(e))
             .transpose()?;
 
         self.scopes.pop();
@@ -759,6 +759,9 @@ impl<'a> Binder<'a> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
             Expr::Integer(n) => Ok(self.bind_integer(*n)),
+            Expr::Decimal(n) => Ok(BoundExpression::Literal {
+                value: DataType::Double((*n).into()),
+            }),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -886,6 +889,17 @@ impl<'a> Binder<'a> {
         }
     }
 
+    /// Binds an expression evaluated for one row at a time, where aggregates have no meaning.
+    fn bind_row_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
+        let bound = self.bind_expr(expr)?;
+        if bound.any(&|e| matches!(e, BoundExpression::Aggregate { .. })) {
+            return Err(BinderError::InvalidExpression(
+                "aggregates are not allowed here".to_string(),
+            ));
+        }
+        Ok(bound)
+    }
+
     fn bind_binary_op(
         &mut self,
         left: &Expr,
@@ -994,6 +1008,9 @@ impl<'a> Binder<'a> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
             Expr::Integer(n) => Ok(self.bind_integer(*n)),
+            Expr::Decimal(n) => Ok(BoundExpression::Literal {
+                value: DataType::Double((*n).into()),
+            }),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
diff --git a/crates/axmos-db/src/sql/parser/ast.rs b/crates/axmos-db/src/sql/parser/ast.rs
index b700108..f96c7e3 100644
--- a/crates/axmos-db/src/sql/parser/ast.rs
+++ b/crates/axmos-db/src/sql/parser/ast.rs
@@ -11,6 +11,8 @@ pub(crate) enum Expr {
     Number(f64),
     /// Integer literal that a float may not hold exactly.
     Integer(u64),
+    /// Floating point literal without a fraction.
+    Decimal(f64),
     String(String),
     Boolean(bool),
     Null,
@@ -786,6 +788,7 @@ impl Display for Expr {
         match self {
             Expr::Number(n) => write!(f, "{n}"),
             Expr::Integer(n) => write!(f, "{n}"),
+            Expr::Decimal(n) => write!(f, "{n:?}"),
             Expr::String(s) => write!(f, "'{s}'"),
             Expr::Boolean(b) => write!(f, "{}", if *b { "TRUE" } else { "FALSE" }),
             Expr::Null => write!(f, "NULL"),
diff --git a/crates/axmos-db/src/sql/parser/lexer.rs b/crates/axmos-db/src/sql/parser/lexer.rs
index 018a317..6f61f6c 100644
--- a/crates/axmos-db/src/sql/parser/lexer.rs
+++ b/crates/axmos-db/src/sql/parser/lexer.rs
@@ -125,6 +125,8 @@ pub enum Token {
     NumberLiteral(f64),
     /// Integer literal that a float may not hold exactly.
     IntegerLiteral(u64),
+    /// Number with a decimal point but no fraction: floating point all the same.
+    DecimalLiteral(f64),
 
     // Symbols and operators
     Star,      // *
@@ -156,6 +158,7 @@ impl fmt::Display for Token {
             Token::StringLiteral(s) => write!(f, "'{s}'"),
             Token::NumberLiteral(n) => write!(f, "{n}"),
             Token::IntegerLiteral(n) => write!(f, "{n}"),
+            Token::DecimalLiteral(n) => write!(f, "{n:?}"),
             Token::Star => write!(f, "*"),
             Token::Comma => write!(f, ","),
             Token::Dot => write!(f, "."),
@@ -303,7 +306,13 @@ impl Lexer {
         // Integers above 2^53 keep all their digits
         match num_str.parse::<u64>() {
             Ok(n) if n > MAX_EXACT_INTEGER => Token::IntegerLiteral(n),
-            _ => Token::NumberLiteral(num_str.parse().unwrap_or(0.0)),
+            Ok(n) => Token::NumberLiteral(n as f64),
+            Err(_) => match num_str.parse::<f64>().unwrap_or(0.0) {
+                n if n.fract() == 0.0 && num_str.contains(DECIMAL_MARKER) => {
+                    Token::DecimalLiteral(n)
+                }
+                n => Token::NumberLiteral(n),
+            },
         }
     }
 
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index a602ec6..a83227c 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -149,6 +149,11 @@ impl Parser {
                 self.next_token();
                 Ok(Expr::Number(num))
             }
+            Token::DecimalLiteral(n) => {
+                let num = *n;
+                self.next_token();
+                Ok(Expr::Decimal(num))
+            }
             Token::IntegerLiteral(n) => {
                 let num = *n;
                 self.next_token();
@@ -264,7 +269,7 @@ impl Parser {
                 // This way, the expression: -1 * 2, is parsed as (* (-1) 2), instead of (- (1 * 2))
                 // Which would happen if unary operators (minus, on this case)
                 // had lower precedence.
-                let expr = self.parse_expr_bp(9)?; // Unary plus precedence
+                let expr = self.parse_expr_bp(11)?; // Unary plus precedence
                 Ok(Expr::UnaryOp {
                     op: UnaryOperator::Plus,
                     expr: Box::new(expr),
@@ -277,9 +282,13 @@ impl Parser {
                     let num = -n;
                     self.next_token();
                     Ok(Expr::Number(num))
+                } else if let Token::DecimalLiteral(n) = self.current_token {
+                    let num = -n;
+                    self.next_token();
+                    Ok(Expr::Decimal(num))
                 } else {
                     // Regular unary minus for expressions
-                    let expr = self.parse_expr_bp(9)?;
+                    let expr = self.parse_expr_bp(11)?;
                     Ok(Expr::UnaryOp {
                         op: UnaryOperator::Minus,
                         expr: Box::new(expr),
-- 
2.43.0


From 79efbf9e05272e753f1a579aab0b01166096104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 21/30] fix: DROP TABLE IF EXISTS of a missing table dropped
 the first table

---
 crates/axmos-db/src/runtime/ddl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index d4c9319..a1c7b64 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -774,8 +774,9 @@ impl DdlExecutor {
                 .catalog()
                 .get_relation(instr.table_id, &tree_builder, &snapshot)
             {
-                Ok(rel) => rel,
-                Err(_) => {
+                // Without a table to drop (IF EXISTS) the id names nothing.
+                Ok(rel) if rel.name() == instr.table_name => rel,
+                _ => {
                     if instr.if_exists {
                         return Ok(DdlResult::NoOp);
                     }
-- 
2.43.0


From 29dc19a944a3e18ee6bb7313e69a6ca6494ef1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 22/30] fix: the cache exceeds its capacity while every frame
 is pinned instead of failing half way through an operation

---
 crates/axmos-db/src/io/cache.rs | 10 ++++++++--
 crates/axmos-db/src/io/pager.rs | 23 +++++++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index dbbef9f..5613f85 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -68,6 +68,10 @@ impl PageCache {
     pub fn get_capacity(&self) -> usize {
         self.capacity
     }
+
+    pub(crate) fn is_full(&self) -> bool {
+        self.capacity <= self.frames.len()
+    }
 }
 
 impl PageCache {
@@ -103,8 +107,10 @@ impl PageCache {
             return Ok(None);
         }
 
-        let evicted = if self.capacity <= self.frames.len() {
-            self.evict()?
+        // The frames of an operation stay pinned until it is done, and it cannot be stopped half way.
+        // When there is nothing to evict the cache exceeds its capacity for as long as they are held.
+        let evicted = if self.is_full() {
+            self.evict().unwrap_or(None)
         } else {
             None
         };
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index ac1164a..400a7be 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -429,17 +429,28 @@ impl Pager {
     /// - **NO-FORCE:** Writes to disk do not happen automatically at transaction commit; only when evicted.
     fn cache_frame(&mut self, frame: MemFrame) -> io::Result<PageId> {
         let id = frame.page_number();
+        // More than one frame has to go if the cache had to exceed its capacity before.
+        while self.cache.is_full()
+            && let Ok(Some(evicted)) = self.cache.evict()
+        {
+            self.write_evicted(evicted)?;
+        }
         if let Some(evicted) = self.cache.insert(frame)? {
-            let evicted_id = evicted.page_number();
-
-            if evicted.is_dirty() {
-                let page_size = self.page_size();
-                evicted.with_bytes_mut(|bytes| self.write_block(evicted_id, &bytes, page_size))?;
-            };
+            self.write_evicted(evicted)?;
         };
         Ok(id)
     }
 
+    fn write_evicted(&mut self, evicted: MemFrame) -> io::Result<()> {
+        let evicted_id = evicted.page_number();
+
+        if evicted.is_dirty() {
+            let page_size = self.page_size();
+            evicted.with_bytes_mut(|bytes| self.write_block(evicted_id, &bytes, page_size))?;
+        };
+        Ok(())
+    }
+
     /// Reads a page from the cache, if it is not found there it goes to the disk to get its contents
     ///
     /// The marker [H] indicates the type of page that is going to be read.
-- 
2.43.0


From 92523f164e8beba9413aeeaa4028f1e3037684da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 23/30] fix: DDL that is too large to be logged fails before it
 changes anything

---
 crates/axmos-db/src/runtime/ddl.rs | 33 ++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index a1c7b64..2009524 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -699,6 +699,11 @@ impl DdlExecutor {
         Self::validate_definition(&columns, &instr.constraints)?;
 
         let object_id = self.ctx.catalog().get_next_object_id();
+        let redo_bytes = instr.to_bytes()?;
+        let undo_bytes = instr.inverse(object_id).to_bytes()?;
+        self.logger
+            .check_payload(undo_bytes.len(), redo_bytes.len())?;
+
         let root = self.allocate_root()?;
         let mut relation = Relation::table(object_id, &instr.table_name, root, columns);
         let mut indexes = Vec::new();
@@ -712,9 +717,6 @@ impl DdlExecutor {
             return Err(err);
         }
 
-        let redo_bytes = instr.to_bytes()?;
-        let undo_instr = instr.inverse(object_id);
-        let undo_bytes = undo_instr.to_bytes()?;
         self.logger.log_create(object_id, redo_bytes, undo_bytes)?;
 
         Ok(DdlResult::TableCreated {
@@ -790,6 +792,10 @@ impl DdlExecutor {
         let undo_instr = relation.to_create_table_instr()?;
 
         let id = relation.object_id();
+        let undo_bytes = undo_instr.to_bytes()?;
+        let redo_bytes = undo_instr.inverse(id).to_bytes()?;
+        self.logger
+            .check_payload(undo_bytes.len(), redo_bytes.len())?;
 
         self.ctx
             .catalog()
@@ -798,9 +804,6 @@ impl DdlExecutor {
             .catalog()
             .remove_relation(relation, &tree_builder, &snapshot, instr.cascade)?;
 
-        let undo_bytes = undo_instr.to_bytes()?;
-        let redo_instr = undo_instr.inverse(id);
-        let redo_bytes = redo_instr.to_bytes()?;
         self.logger.log_drop(id, redo_bytes, undo_bytes)?;
 
         Ok(DdlResult::TableDropped { name: table_name })
@@ -835,6 +838,10 @@ impl DdlExecutor {
             return Err(RuntimeError::Schema(SchemaError::NotATable));
         }
 
+        let redo_bytes = instr.to_bytes()?;
+        let undo_size = instr.inverse(0).to_bytes()?.len();
+        self.logger.check_payload(undo_size, redo_bytes.len())?;
+
         let index_id =
             self.create_unique_index(&mut relation, &instr.index_name, &instr.columns)?;
         let change = RelationChange {
@@ -850,10 +857,7 @@ impl DdlExecutor {
             return Err(err.into());
         }
 
-        let redo_bytes = instr.to_bytes()?;
-        let undo_instr = instr.inverse(index_id);
-        let undo_bytes = undo_instr.to_bytes()?;
-
+        let undo_bytes = instr.inverse(index_id).to_bytes()?;
         self.logger.log_create(index_id, redo_bytes, undo_bytes)?;
 
         Ok(DdlResult::IndexCreated {
@@ -912,6 +916,14 @@ impl DdlExecutor {
             .claim_relation(instr.table_id, &tree_builder, &snapshot)?;
 
         let before = relation.clone();
+        let redo_bytes = instr.to_bytes()?;
+        let undo_size = match &instr.action {
+            // What takes it back only names the column.
+            AlterActionInstr::AddColumn { .. } => redo_bytes.len(),
+            _ => instr.try_inverse_with(before.schema())?.to_bytes()?.len(),
+        };
+        self.logger.check_payload(undo_size, redo_bytes.len())?;
+
         let mut changes = TableChanges::default();
         let result = self
             .apply_alter_action(&mut relation, &instr.action, &mut changes)
@@ -946,7 +958,6 @@ impl DdlExecutor {
             AlterActionInstr::AddColumn { .. } => instr.try_inverse_with(relation.schema())?,
             _ => instr.try_inverse_with(before.schema())?,
         };
-        let redo_bytes = instr.to_bytes()?;
         let undo_bytes = undo_instr.to_bytes()?;
 
         self.logger
-- 
2.43.0


From bf4452c8a2064a5be6895aee34a82c5858331a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 24/30] fix: after a crash the database is the last checkpoint
 plus what was logged as committed since

---
 crates/axmos-db/src/io/cache.rs               |   9 +
 crates/axmos-db/src/io/journal.rs             | 200 +++++++++
 crates/axmos-db/src/io/mod.rs                 |   1 +
 crates/axmos-db/src/io/pager.rs               | 111 ++++-
 crates/axmos-db/src/io/recovery.rs            | 420 ++++--------------
 crates/axmos-db/src/io/wal.rs                 |  19 +
 crates/axmos-db/src/lib.rs                    | 104 +++--
 .../src/multithreading/coordinator.rs         |  24 +-
 crates/axmos-db/src/runtime/context.rs        |  28 +-
 crates/axmos-db/src/runtime/ddl.rs            |  58 ++-
 crates/axmos-db/src/runtime/dml.rs            |  75 +++-
 crates/axmos-db/src/storage/page.rs           |   4 +-
 crates/axmos-db/src/tcp/session.rs            |   6 +-
 13 files changed, 628 insertions(+), 431 deletions(-)
 create mode 100644 crates/axmos-db/src/io/journal.rs

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index 5613f85..dbddc5b 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -160,6 +160,15 @@ impl PageCache {
         ))
     }
 
+    /// The frames that have not been written since they changed.
+    pub(crate) fn dirty_frames(&self) -> Vec<MemFrame> {
+        self.frames
+            .values()
+            .filter(|frame| frame.is_dirty())
+            .cloned()
+            .collect()
+    }
+
     pub fn get(&self, id: &PageId) -> Option<MemFrame> {
         if let Some(frame) = self.frames.get(id) {
             self.stats.cache_hit();
diff --git a/crates/axmos-db/src/io/journal.rs b/crates/axmos-db/src/io/journal.rs
new file mode 100644
index 0000000..e223d60
--- /dev/null
+++ b/crates/axmos-db/src/io/journal.rs
@@ -0,0 +1,200 @@
+use crate::{
+    PAGE_ALIGNMENT,
+    io::disk::{DBFile, FileOperations},
+    storage::core::buffer::MemBlock,
+    types::PageId,
+};
+
+use std::{
+    collections::HashSet,
+    io::{self, Read, Seek, SeekFrom, Write},
+    path::{Path, PathBuf},
+};
+
+const ENTRY_MAGIC: u64 = 0x4158_4d4f_534a_4e4c;
+const ENTRY_HEADER_SIZE: usize = PAGE_ALIGNMENT as usize;
+
+/// What comes before each page in the journal. It fills a block of its own, for direct I/O.
+#[derive(Debug, Clone, Copy, Default)]
+#[repr(C, align(8))]
+struct EntryHeader {
+    magic: u64,
+    page_id: PageId,
+    page_size: u64,
+    checksum: u64,
+}
+
+impl EntryHeader {
+    fn new(page_id: PageId, page: &[u8]) -> Self {
+        Self {
+            magic: ENTRY_MAGIC,
+            page_id,
+            page_size: page.len() as u64,
+            checksum: Self::checksum(page_id, page),
+        }
+    }
+
+    fn checksum(page_id: PageId, page: &[u8]) -> u64 {
+        page.chunks_exact(8).fold(page_id ^ ENTRY_MAGIC, |sum, chunk| {
+            let word = u64::from_le_bytes(chunk.try_into().expect("chunks of eight bytes"));
+            (sum ^ word).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23)
+        })
+    }
+}
+
+/// The journal keeps the pages of the last checkpoint that have been overwritten since.
+///
+/// The pages of the database file change in any order and in between checkpoints, while the log
+/// tells what has happened since the last checkpoint. In order to start over from there after a
+/// crash, a page goes to the journal before it is overwritten for the first time. The next
+/// checkpoint empties the journal, which is the moment it becomes the last one.
+#[derive(Debug)]
+pub(crate) struct PageJournal {
+    path: PathBuf,
+    file: Option<DBFile>,
+    saved: HashSet<PageId>,
+    length: u64,
+    unsynced: bool,
+}
+
+impl PageJournal {
+    fn path_for(database: &Path) -> PathBuf {
+        let mut name = database.file_name().unwrap_or_default().to_os_string();
+        name.push("-journal");
+        database.with_file_name(name)
+    }
+
+    fn with_file(path: PathBuf, file: Option<DBFile>) -> Self {
+        Self {
+            path,
+            file,
+            saved: HashSet::new(),
+            length: 0,
+            unsynced: false,
+        }
+    }
+
+    /// The journal of a database that is being created. Whatever it had is of no use.
+    pub(crate) fn create(database: &Path) -> io::Result<Self> {
+        let mut journal = Self::open(database)?;
+        journal.clear()?;
+        Ok(journal)
+    }
+
+    /// The journal of an existing database. The file is there once a page had to be saved.
+    pub(crate) fn open(database: &Path) -> io::Result<Self> {
+        let path = Self::path_for(database);
+        let file = if path.exists() {
+            Some(DBFile::open(&path)?)
+        } else {
+            None
+        };
+        Ok(Self::with_file(path, file))
+    }
+
+    pub(crate) fn remove(database: &Path) -> io::Result<()> {
+        let path = Self::path_for(database);
+        if path.exists() {
+            DBFile::remove(&path)?;
+        }
+        Ok(())
+    }
+
+    pub(crate) fn has(&self, page_id: PageId) -> bool {
+        self.saved.contains(&page_id)
+    }
+
+    /// Appends a page, as it was at the last checkpoint.
+    pub(crate) fn save(&mut self, page_id: PageId, page: &[u8]) -> io::Result<()> {
+        if self.file.is_none() {
+            self.file = Some(DBFile::create(&self.path)?);
+        }
+        let Some(file) = self.file.as_mut() else {
+            return Ok(());
+        };
+
+        let mut entry: MemBlock<EntryHeader> = MemBlock::new(ENTRY_HEADER_SIZE + page.len());
+        *entry.metadata_mut() = EntryHeader::new(page_id, page);
+        entry.as_mut()[ENTRY_HEADER_SIZE..].copy_from_slice(page);
+
+        file.seek(SeekFrom::Start(self.length))?;
+        file.write_all(entry.as_ref())?;
+        self.length += entry.as_ref().len() as u64;
+        self.saved.insert(page_id);
+        self.unsynced = true;
+        Ok(())
+    }
+
+    /// Makes sure that the saved pages are on disk, before anything overwrites them.
+    pub(crate) fn sync(&mut self) -> io::Result<()> {
+        if let Some(file) = self.file.as_ref()
+            && self.unsynced
+        {
+            file.sync_all()?;
+            self.unsynced = false;
+        }
+        Ok(())
+    }
+
+    /// Puts the saved pages back where they come from. An entry that is not complete was never
+    /// followed by a write to the page it has.
+    pub(crate) fn restore(&mut self, database: &mut DBFile) -> io::Result<()> {
+        let Some(file) = self.file.as_mut() else {
+            return Ok(());
+        };
+
+        let length = file.metadata()?.len();
+        let mut offset = 0;
+        let mut restored = false;
+        while offset + ENTRY_HEADER_SIZE as u64 <= length {
+            let mut header: MemBlock<EntryHeader> = MemBlock::new(ENTRY_HEADER_SIZE);
+            file.seek(SeekFrom::Start(offset))?;
+            file.read_exact(header.as_mut())?;
+            offset += ENTRY_HEADER_SIZE as u64;
+
+            let EntryHeader {
+                magic,
+                page_id,
+                page_size,
+                checksum,
+            } = *header.metadata();
+            let is_complete = magic == ENTRY_MAGIC
+                && page_size >= PAGE_ALIGNMENT as u64
+                && page_size.is_multiple_of(PAGE_ALIGNMENT as u64)
+                && page_size <= length.saturating_sub(offset);
+            if !is_complete {
+                break;
+            }
+
+            let mut page: MemBlock<EntryHeader> = MemBlock::new(page_size as usize);
+            file.read_exact(page.as_mut())?;
+            if EntryHeader::checksum(page_id, page.as_ref()) != checksum {
+                break;
+            }
+            offset += page_size;
+
+            database.seek(SeekFrom::Start(page_id * page_size))?;
+            database.write_all(page.as_ref())?;
+            restored = true;
+        }
+
+        if restored {
+            database.sync_all()?;
+        }
+        self.clear()
+    }
+
+    /// Forgets the saved pages: the database file is at a checkpoint.
+    pub(crate) fn clear(&mut self) -> io::Result<()> {
+        if let Some(file) = self.file.as_mut()
+            && file.metadata()?.len() > 0
+        {
+            file.truncate()?;
+            file.sync_all()?;
+        }
+        self.saved.clear();
+        self.length = 0;
+        self.unsynced = false;
+        Ok(())
+    }
+}
diff --git a/crates/axmos-db/src/io/mod.rs b/crates/axmos-db/src/io/mod.rs
index 1c0e0a3..244f4ec 100644
--- a/crates/axmos-db/src/io/mod.rs
+++ b/crates/axmos-db/src/io/mod.rs
@@ -4,6 +4,7 @@
 //! from disk, as well as caching frequently accessed data in memory to improve performance.
 pub mod cache;
 pub mod disk;
+pub(crate) mod journal;
 pub mod logger;
 pub mod recovery;
 
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 400a7be..c8c2583 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -4,6 +4,7 @@ use crate::{
     io::{
         cache::PageCache,
         disk::{DBFile, FileOperations, FileSystem, FileSystemBlockSize},
+        journal::PageJournal,
         logger::Operation,
         wal::{AnalysisResult, WriteAheadLog},
     },
@@ -35,6 +36,8 @@ pub struct Pager {
     wal: WriteAheadLog,
     cache: PageCache,
     db_header: Option<PageZeroHeader>, // Page zero header is always in memory
+    journal: PageJournal,
+    checkpoint_pages: u64, // How many pages the file had at the last checkpoint
 }
 
 impl<'a> FileOperations for Pager {
@@ -47,12 +50,15 @@ impl<'a> FileOperations for Pager {
         let wal_path = dir.join("axmos.log");
         let wal = WriteAheadLog::create(wal_path)?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE as usize);
+        let journal = PageJournal::create(path.as_ref())?;
 
         Ok(Self {
             file,
             cache,
             wal,
             db_header: None,
+            journal,
+            checkpoint_pages: 0,
         })
     }
 
@@ -60,8 +66,13 @@ impl<'a> FileOperations for Pager {
     where
         Self: Sized,
     {
-        let file = DBFile::open(&path)?;
+        let mut file = DBFile::open(&path)?;
         let block_size = FileSystem::block_size(&path)?;
+
+        // The file starts over from the last checkpoint. The log has what came after it.
+        let mut journal = PageJournal::open(path.as_ref())?;
+        journal.restore(&mut file)?;
+
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE);
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
@@ -72,10 +83,13 @@ impl<'a> FileOperations for Pager {
             cache,
             wal,
             db_header: None,
+            journal,
+            checkpoint_pages: 0,
         };
 
         let page_zero = pager.load_page_zero(block_size)?;
         pager.db_header = Some(*page_zero.metadata());
+        pager.checkpoint_pages = pager.total_allocated_pages();
 
         Ok(pager)
     }
@@ -85,6 +99,7 @@ impl<'a> FileOperations for Pager {
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
         WriteAheadLog::remove(&wal_path)?;
+        PageJournal::remove(path.as_ref())?;
         Ok(())
     }
 
@@ -98,6 +113,7 @@ impl<'a> FileOperations for Pager {
         self.file.truncate()?;
         self.cache.clear();
         self.wal.truncate()?;
+        self.journal.clear()?;
         Ok(())
     }
 }
@@ -123,6 +139,7 @@ impl Pager {
         let mut pager = Pager::create(path)?;
         let page_zero = pager.alloc_page_zero(config)?;
         pager.db_header = Some(*page_zero.metadata());
+        pager.checkpoint_pages = pager.total_allocated_pages();
         Ok(pager)
     }
 
@@ -146,10 +163,42 @@ impl Pager {
         let page_size = self.page_size();
         let mut zero_from_disk = self.load_page_zero(page_size)?;
         *zero_from_disk.metadata_mut() = *self.header_unchecked();
-        self.write_block(PAGE_ZERO, zero_from_disk.as_ref(), page_size)?;
+        self.write_page(PAGE_ZERO, zero_from_disk.as_ref())?;
         Ok(())
     }
 
+    /// Saves a page of the last checkpoint that is about to be overwritten.
+    fn save_page(&mut self, page_id: PageId) -> io::Result<()> {
+        if page_id >= self.checkpoint_pages || self.journal.has(page_id) {
+            return Ok(());
+        }
+        let page_size = self.page_size();
+        let offset = Self::page_offset(page_id, page_size as u64);
+        if self.file.metadata()?.len() < offset + page_size as u64 {
+            return Ok(());
+        }
+        let mut page: MemBlock<PageZeroHeader> = MemBlock::new(page_size);
+        self.read_block(page_id, page.as_mut(), page_size)?;
+        self.journal.save(page_id, page.as_ref())
+    }
+
+    /// Writes a page to the file. What the file had of it at the last checkpoint goes to the journal first.
+    fn write_page(&mut self, page_id: PageId, content: &[u8]) -> io::Result<()> {
+        let page_size = self.page_size();
+        self.save_page(page_id)?;
+        self.journal.sync()?;
+        self.write_block(page_id, content, page_size)
+    }
+
+    /// The sequence number of the next record. Numbers are not used again, even if the log is truncated.
+    fn next_lsn(&self) -> Lsn {
+        let next = self.wal.last_lsn().map(|l| l + 1).unwrap_or(0);
+        match self.db_header.as_ref() {
+            Some(header) => next.max(header.checkpoint_lsn),
+            None => next,
+        }
+    }
+
     /// Push a record to the write ahead log (implementation is not complete)
     pub(crate) fn push_to_log<O: Operation>(
         &mut self,
@@ -157,7 +206,7 @@ impl Pager {
         tid: TransactionId,
         prev_lsn: Option<Lsn>,
     ) -> io::Result<Lsn> {
-        let lsn = self.wal.last_lsn().map(|l| l + 1).unwrap_or(0);
+        let lsn = self.next_lsn();
         let record = operation.into_record(lsn, tid, prev_lsn);
         self.wal.push(record)?;
         Ok(lsn)
@@ -445,8 +494,7 @@ impl Pager {
         let evicted_id = evicted.page_number();
 
         if evicted.is_dirty() {
-            let page_size = self.page_size();
-            evicted.with_bytes_mut(|bytes| self.write_block(evicted_id, &bytes, page_size))?;
+            evicted.with_bytes_mut(|bytes| self.write_page(evicted_id, bytes))?;
         };
         Ok(())
     }
@@ -525,12 +573,34 @@ impl Pager {
         Ok(())
     }
 
+    /// Analyzes what the log has on top of the last checkpoint.
     pub fn run_analysis(&mut self) -> io::Result<AnalysisResult> {
-        self.wal.run_analysis()
+        let checkpoint_lsn = self.header_unchecked().checkpoint_lsn;
+        self.wal.run_analysis_from(checkpoint_lsn)
     }
 
-    pub fn truncate_wal(&mut self) -> io::Result<()> {
-        self.wal.truncate()
+    /// Brings the header up to date with the transactions that have finished, and the ids that
+    /// have been given out since the last checkpoint.
+    pub(crate) fn recover_transactions(&mut self, analysis: &AnalysisResult) {
+        for txid in analysis.needs_redo.iter() {
+            self.clear_transaction_aborted(*txid);
+            if *txid > self.get_last_committed_transaction() {
+                self.set_last_committed_transaction(*txid);
+            }
+        }
+
+        if let Some(last) = analysis.lsn_chains.keys().max()
+            && *last >= self.get_last_created_transaction()
+        {
+            self.set_last_created_transaction(*last + 1);
+        }
+
+        let created = analysis.create_ops.values().filter_map(|op| op.row_id());
+        if let Some(last) = created.max()
+            && last >= self.get_last_stored_object()
+        {
+            self.set_last_stored_object(last + 1);
+        }
     }
 
     pub fn flush_wal(&mut self) -> io::Result<()> {
@@ -545,20 +615,29 @@ impl Write for Pager {
         self.file.write(buf)
     }
 
+    /// Takes a checkpoint: what is in memory goes to the file, which then needs neither the journal nor the log.
     fn flush(&mut self) -> io::Result<()> {
-        let block_size = self.page_size();
         self.wal.flush()?;
-        let pages = self.cache.clear();
-        for page in pages {
-            let page_number = page.page_number();
-            if page.is_dirty() {
-                page.with_bytes_mut(|bytes| self.write_block(page_number, &bytes, block_size))?;
-            };
+        self.header_unchecked_mut().checkpoint_lsn = self.next_lsn();
+
+        let dirty = self.cache.dirty_frames();
+        for frame in &dirty {
+            self.save_page(frame.page_number())?;
+        }
+        for frame in &dirty {
+            let page_number = frame.page_number();
+            frame.with_bytes_mut(|bytes| self.write_page(page_number, bytes))?;
         }
 
         self.sync_header()?;
+        self.file.sync_all()?;
+
+        // This is the checkpoint. Up to here, a crash leads back to the one before.
+        self.journal.clear()?;
+        self.checkpoint_pages = self.total_allocated_pages();
 
-        self.file.flush()?;
+        drop(dirty);
+        self.cache.clear();
         self.wal.truncate()?;
         self.wal.flush()?;
         Ok(())
diff --git a/crates/axmos-db/src/io/recovery.rs b/crates/axmos-db/src/io/recovery.rs
index e1638f6..88f7e75 100644
--- a/crates/axmos-db/src/io/recovery.rs
+++ b/crates/axmos-db/src/io/recovery.rs
@@ -1,5 +1,5 @@
 use crate::{
-    UInt64,
+    Lsn,
     io::{
         logger::{Alter, Create, Delete, DropOp, Insert, Operation, Update},
         wal::AnalysisResult,
@@ -7,17 +7,23 @@ use crate::{
     runtime::{
         RuntimeResult,
         context::{ThreadContext, TransactionLogger},
-        ddl::{
-            AlterTableInstr, CreateIndexInstr, CreateTableInstr, DdlExecutor, DdlInstruction,
-            DropIndexInstr, DropTableInstr,
-        },
+        ddl::{DdlExecutor, DdlInstruction},
         dml::DmlExecutor,
     },
     storage::tuple::Row,
+    types::{ObjectId, RowId},
 };
 
 use std::io::{Error as IoError, ErrorKind};
 
+/// Does again what the log has on top of the last checkpoint.
+///
+/// The pages start over from the checkpoint, so that there is nothing to undo in them: transactions
+/// that did not commit left no more than what they had written before the checkpoint, which page
+/// zero says is not to be seen.
+///
+/// All of it is done by one transaction, that does not log anything. It becomes durable with the
+/// checkpoint that follows it, and until then a crash leads back to where it began.
 pub struct WalRecuperator {
     dml_executor: DmlExecutor,
     ddl_executor: DdlExecutor,
@@ -26,401 +32,125 @@ pub struct WalRecuperator {
 impl WalRecuperator {
     pub(crate) fn new(ctx: ThreadContext, logger: TransactionLogger) -> Self {
         Self {
-            dml_executor: DmlExecutor::new(ctx.clone(), logger.clone()),
-            ddl_executor: DdlExecutor::new(ctx, logger),
+            dml_executor: DmlExecutor::for_recovery(ctx.clone(), logger.clone()),
+            ddl_executor: DdlExecutor::for_recovery(ctx, logger),
         }
     }
 
     /// Runs the recovery
     pub(crate) fn run_recovery(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        self.run_undo(&analysis)?;
-        self.run_redo(&analysis)?;
-
-        Ok(())
-    }
-
-    /// Run all the undo.
-    pub(crate) fn run_undo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_undo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.undo_delete(delete_operation)?;
-                }
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.undo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.undo_insert(insert_operation)?;
-                }
-
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.undo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.undo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.undo_drop(drop_operation)?;
-                }
-            }
+        for lsn in Self::committed_records(analysis)? {
+            self.redo(analysis, lsn)?;
         }
-
         Ok(())
     }
 
-    /// Run all the redo.
-    pub(crate) fn run_redo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_redo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
+    /// The records of the transactions that committed, in the order in which they were written.
+    fn committed_records(analysis: &AnalysisResult) -> RuntimeResult<Vec<Lsn>> {
+        let mut records = Vec::new();
+        for transaction in analysis.needs_redo.iter() {
+            let chain = analysis.try_iter_lsn(transaction).ok_or(IoError::new(
                 ErrorKind::NotSeekable,
                 "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.redo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.redo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.redo_drop(drop_operation)?;
-                }
-
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.redo_delete(delete_operation)?;
-                }
-
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.redo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.redo_insert(insert_operation)?;
-                }
-            }
+            ))?;
+            records.extend(chain.copied());
         }
-
-        Ok(())
+        records.sort_unstable();
+        Ok(records)
     }
 
-    /// Recovers a CREATE operation during redo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the redo
-    /// payload and executes it to recreate the table/index.
-    fn redo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
-        let redo_bytes = create_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
+    fn redo(&mut self, analysis: &AnalysisResult, lsn: Lsn) -> RuntimeResult<()> {
+        if let Some(create_operation) = analysis.create_ops.get(&lsn) {
+            self.redo_create(create_operation)?;
         }
-
-        // Try to deserialize as CreateTableInstr first
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
+        if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
+            self.redo_alter(alter_operation)?;
+        }
+        if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
+            self.redo_drop(drop_operation)?;
         }
 
-        // Try CreateIndexInstr
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
+        if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
+            self.redo_delete(delete_operation)?;
         }
 
-        // Fallback: try generic DdlInstruction
-        if let Ok(instruction) = DdlInstruction::from_bytes(redo_bytes) {
-            self.ddl_executor.execute_instruction(&instruction)?;
+        if let Some(update_operation) = analysis.update_ops.get(&lsn) {
+            self.redo_update(update_operation)?;
         }
 
+        if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
+            self.redo_insert(insert_operation)?;
+        }
         Ok(())
     }
 
-    /// Recovers a CREATE operation during undo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the undo
-    /// payload and executes it to remove the created table/index.
-    fn undo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
+    /// Recovers a CREATE operation. What is created keeps the id that the log has: later records
+    /// refer to it.
+    fn redo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
         let object_id = create_op
             .row_id()
             .expect("Object ID must be set for CREATE logs");
-
-        // The undo of CREATE is DROP
-        // We need to get the redo bytes to know what type of object was created
-        let redo_bytes = create_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Determine if it's a table or index and execute the inverse
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_table_instr.inverse(object_id);
-            let instr = DdlInstruction::DropTable(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_index_instr.inverse(object_id);
-            let instr = DdlInstruction::DropIndex(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
+        let instruction = DdlInstruction::from_bytes(create_op.redo())?;
+        self.ddl_executor.redo_instruction(&instruction, object_id)
     }
 
-    /// Recovers a DROP operation during redo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the redo
-    /// payload and executes it to remove the table/index.
+    /// Recovers a DROP operation.
     fn redo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
         let object_id = drop_op
             .row_id()
             .expect("Object ID must be set for DROP logs");
-
-        // The undo bytes contain the CreateTableInstr needed to restore
-        // But for redo, we just need to drop by object_id
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Get the table/index name from the undo instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let drop_instr = DropTableInstr::new(
-                create_table_instr.table_name,
-                object_id,
-                true,
-                true, // if_exists = true for recovery
-            );
-            let instr = DdlInstruction::DropTable(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let drop_instr = DropIndexInstr::new(create_index_instr.index_name, object_id, true);
-            let instr = DdlInstruction::DropIndex(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    /// Recovers a DROP operation during undo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the undo
-    /// payload and executes it to restore the dropped table/index.
-    fn undo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // The undo of DROP is CREATE - restore from the saved instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
+        let instruction = DdlInstruction::from_bytes(drop_op.redo())?;
+        self.ddl_executor.redo_instruction(&instruction, object_id)
     }
 
-    /// Recovers an ALTER operation during redo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the redo payload and applies
-    /// the alteration to the table.
+    /// Recovers an ALTER operation.
     fn redo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let redo_bytes = alter_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    /// Recovers an ALTER operation during undo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the undo payload (which contains
-    /// the inverse operation) and applies it to restore the previous state.
-    fn undo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let undo_bytes = alter_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    // DML Undo operations
-    fn undo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(delete_op.undo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
-        }
-        Ok(())
-    }
-
-    fn undo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
+        let object_id = alter_op
             .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
+            .expect("Object ID must be set for ALTER logs");
+        let instruction = DdlInstruction::from_bytes(alter_op.redo())?;
+        self.ddl_executor.redo_instruction(&instruction, object_id)
+    }
 
-        let table = self
-            .dml_executor
-            .ctx()
+    /// Reads the image of a row of a table, as the log has it.
+    fn row_of(&self, table_id: ObjectId, image: &[u8]) -> RuntimeResult<Row> {
+        let ctx = self.dml_executor.ctx();
+        let builder = ctx.tree_builder();
+        let table = ctx
             .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                self.dml_executor
-                    .update_row(table_id, &row_id, &redo_row, &undo_row)?;
-            }
-        }
-        Ok(())
+            .get_relation(table_id, &builder, ctx.snapshot())?;
+        Ok(Row::from_bytes_checked(image, table.schema())?)
     }
 
-    fn undo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
+    /// The table and the row that a record of a statement refers to.
+    fn target_of(operation: &impl Operation) -> (ObjectId, RowId) {
+        let table_id = operation
             .object_id()
             .expect("Table id must be set for DML logs");
-        let row_id = insert_op
+        let row_id = operation
             .row_id()
-            .map(|r| UInt64::from(r))
             .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
-        Ok(())
+        (table_id, row_id)
     }
 
     // DML Redo operations
 
     fn redo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = delete_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
-        Ok(())
+        let (table_id, row_id) = Self::target_of(delete_op);
+        self.dml_executor.redo_delete(table_id, row_id)
     }
 
     fn redo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                // Redo: apply new state
-                self.dml_executor
-                    .update_row(table_id, &row_id, &undo_row, &redo_row)?;
-            }
-        }
-        Ok(())
+        let (table_id, row_id) = Self::target_of(update_op);
+        let old_row = self.row_of(table_id, update_op.undo())?;
+        let new_row = self.row_of(table_id, update_op.redo())?;
+        self.dml_executor
+            .redo_update(table_id, row_id, &old_row, &new_row)
     }
 
     fn redo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(insert_op.redo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
-        }
-        Ok(())
+        let (table_id, row_id) = Self::target_of(insert_op);
+        let row = self.row_of(table_id, insert_op.redo())?;
+        self.dml_executor.redo_insert(table_id, row_id, &row)
     }
 }
diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index 99dc80e..e6bb197 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -64,6 +64,11 @@ impl FileOperations for WriteAheadLog {
         file.seek(SeekFrom::Start(0))?;
         file.read_exact(header_buf.as_mut())?;
 
+        // Nor does one that was being forced for the first time: the header is written last.
+        if header_buf.metadata().wal_header.total_blocks == 0 {
+            header_buf = BlockZero::alloc(0, default_block_size);
+        }
+
         // Usar el block_size del archivo, o el default si es 0
         let block_size = header_buf.metadata().wal_header.block_size as usize;
         let block_size = if block_size == 0 {
@@ -161,6 +166,11 @@ pub struct AnalysisResult {
     pub start_redo_lsn: Option<Lsn>,
 }
 impl AnalysisResult {
+    /// Whether the log has nothing on top of the last checkpoint.
+    pub(crate) fn is_empty(&self) -> bool {
+        self.lsn_chains.is_empty()
+    }
+
     pub(crate) fn try_iter_lsn(&self, id: &TransactionId) -> Option<std::slice::Iter<'_, Lsn>> {
         self.lsn_chains.get(id).map(|vec| vec.iter())
     }
@@ -178,6 +188,11 @@ impl WriteAheadLog {
 
     /// Runs the analysis phase of the ARIES recovery protocol.
     pub(crate) fn run_analysis(&mut self) -> io::Result<AnalysisResult> {
+        self.run_analysis_from(0)
+    }
+
+    /// Runs the analysis phase, without the records that come before the given one.
+    pub(crate) fn run_analysis_from(&mut self, first_lsn: Lsn) -> io::Result<AnalysisResult> {
         let mut result = AnalysisResult::default();
 
         let total_blocks = self.header.metadata().wal_header.total_blocks;
@@ -197,6 +212,10 @@ impl WriteAheadLog {
             let lsn = record.lsn();
             let record_type = record.log_type();
 
+            if lsn < first_lsn {
+                continue;
+            }
+
             // Track the last LSN for each transaction
             result
                 .lsn_chains
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 3b6ce44..b1b9f77 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -51,6 +51,7 @@ use crate::{
         logger::Begin,
         pager::{BtreeBuilder, Pager, SharedPager},
         recovery::WalRecuperator,
+        wal::AnalysisResult,
     },
     multithreading::{
         coordinator::{TransactionCoordinator, TransactionError},
@@ -226,6 +227,10 @@ impl Database {
         // Open pager
         let mut pager = Pager::open(&path)?;
 
+        // What has been logged since the last checkpoint
+        let analysis = pager.run_analysis()?;
+        pager.recover_transactions(&analysis);
+
         let total_pages = pager.total_allocated_pages();
 
         let (meta_table, meta_index) = if total_pages == 1 {
@@ -253,19 +258,20 @@ impl Database {
         let task_runner =
             SharedTaskRunner::new(config.pool_size, pager.clone(), coordinator.clone());
 
-        let db = Self {
+        // A database that could not be recovered must not take a checkpoint when it is dropped.
+        if !analysis.is_empty() {
+            Self::run_recovery(analysis, &pager, &catalog, &coordinator, &task_runner)
+                .map_err(|err| DatabaseError::RecoveryFailed(err.to_string()))?;
+        }
+
+        Ok(Self {
             path,
             pager,
             catalog,
             coordinator,
             task_runner,
             config,
-        };
-
-        // Run recovery
-        db.run_recovery()?;
-
-        Ok(db)
+        })
     }
 
     pub(crate) fn begin_transaction(
@@ -307,31 +313,24 @@ impl Database {
         }
     }
 
-    /// Runs WAL recovery to restore database to consistent state.
-    fn run_recovery(&self) -> DatabaseResult<()> {
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
+    /// Runs WAL recovery to restore database to consistent state. It ends with a checkpoint.
+    fn run_recovery(
+        analysis: AnalysisResult,
+        pager: &SharedPager,
+        catalog: &SharedCatalog,
+        coordinator: &TransactionCoordinator,
+        task_runner: &SharedTaskRunner,
+    ) -> DatabaseResult<()> {
+        let handle = coordinator.begin()?;
+        let logger = TransactionLogger::silent(handle.id(), pager.clone());
+        let tx_ctx = TransactionContext::new(pager.clone(), catalog.clone(), handle)?;
         let child = tx_ctx.create_child()?;
-        let pager = self.pager.clone();
-        // Begin a recovery transaction
-        self.task_runner.run(move |ctx| {
-            let mut recuperator = WalRecuperator::new(child, logger.clone());
-
-            // Run analysis INSIDE the closure using the cloned pager
-            let analysis = pager.write().run_analysis().map_err(box_err)?;
 
-            // Run recovery through recuperator
+        task_runner.run(move |ctx| {
+            let mut recuperator = WalRecuperator::new(child, logger.clone());
             recuperator.run_recovery(&analysis).map_err(box_err)?;
-
-            // Truncate WAL
-            pager.write().truncate_wal().map_err(box_err)?;
-
-            // Commit recovery transaction
-            tx_ctx.commit_transaction().map_err(box_err)?;
-
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
+            ctx.pager().write().flush().map_err(box_err)?;
             Ok(())
         })?;
 
@@ -341,14 +340,12 @@ impl Database {
     /// Executes a SQL query and returns the result.
     pub fn execute(&self, sql: &str) -> DatabaseResult<QueryResult> {
         let sql = sql.to_string();
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
-
-        let child = tx_ctx.create_child()?;
-        let result = self.task_runner.run_with_result(move |_ctx| {
+        let (pager, catalog) = (self.pager.clone(), self.catalog.clone());
+        let result = self.task_runner.run_with_result(move |ctx| {
+            let _guard = ctx.coordinator().statement_guard();
+            let (tx_ctx, logger) =
+                Self::begin_transaction(ctx.coordinator(), pager, catalog).map_err(box_err)?;
+            let child = tx_ctx.create_child().map_err(box_err)?;
             let runner = QueryRunner::new(child, logger.clone());
             let result_guard = match runner.prepare_and_run(&sql) {
                 Ok(done) => done,
@@ -370,14 +367,12 @@ impl Database {
     /// Executes a SQL query and returns the result.
     pub fn explain(&self, sql: &str) -> DatabaseResult<String> {
         let sql = sql.to_string();
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
-
-        let child = tx_ctx.create_child()?;
-        let result = self.task_runner.run_with_result(move |_ctx| {
+        let (pager, catalog) = (self.pager.clone(), self.catalog.clone());
+        let result = self.task_runner.run_with_result(move |ctx| {
+            let _guard = ctx.coordinator().statement_guard();
+            let (tx_ctx, logger) =
+                Self::begin_transaction(ctx.coordinator(), pager, catalog).map_err(box_err)?;
+            let child = tx_ctx.create_child().map_err(box_err)?;
             let runner = QueryRunner::new(child, logger.clone());
             let result = match runner.prepare_and_explain(&sql) {
                 Ok(done) => done,
@@ -398,15 +393,12 @@ impl Database {
     /// Executes multiple SQL statements in a single transaction.
     pub fn execute_batch(&self, statements: &[&str]) -> DatabaseResult<Vec<QueryResult>> {
         let statements: Vec<String> = statements.iter().map(|s| s.to_string()).collect();
-        // Begin transaction
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
-
-        let child = tx_ctx.create_child()?;
-        let results = self.task_runner.run_with_result(move |_ctx| {
+        let (pager, catalog) = (self.pager.clone(), self.catalog.clone());
+        let results = self.task_runner.run_with_result(move |ctx| {
+            let _guard = ctx.coordinator().statement_guard();
+            let (tx_ctx, logger) =
+                Self::begin_transaction(ctx.coordinator(), pager, catalog).map_err(box_err)?;
+            let child = tx_ctx.create_child().map_err(box_err)?;
             // Use BatchQueryRunner for atomic execution
             let runner = MultiQueryRunner::new(child, logger.clone());
 
@@ -428,6 +420,7 @@ impl Database {
 
     /// Flushes all pending writes to disk.
     pub fn flush(&self) -> DatabaseResult<()> {
+        let _guard = self.coordinator.checkpoint_guard();
         self.pager.write().flush()?;
         Ok(())
     }
@@ -472,6 +465,7 @@ impl Database {
         let coordinator = self.coordinator.clone();
 
         self.task_runner.run(move |_ctx| {
+            let _guard = coordinator.statement_guard();
             let (tx_ctx, logger) =
                 Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())
                     .map_err(box_err)?;
@@ -509,6 +503,8 @@ impl Database {
         let coordinator = self.coordinator.clone();
 
         let stats = self.task_runner.run_with_result(move |_ctx| {
+            let _guard = coordinator.checkpoint_guard();
+
             // Abort all active transactions
             let aborted_txs = coordinator.abort_all();
             let oldest_active_xid = coordinator.get_last_committed();
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 1b331f3..57810b7 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -3,7 +3,7 @@ use crate::{
     io::pager::SharedPager,
     types::{LogicalId, ObjectId, TransactionId},
 };
-use parking_lot::RwLock;
+use parking_lot::{ArcRwLockReadGuard, ArcRwLockWriteGuard, RawRwLock, RwLock};
 use std::{
     collections::{HashMap, HashSet},
     error::Error,
@@ -291,6 +291,7 @@ impl Clone for TransactionCoordinator {
             commit_counter: Arc::clone(&self.commit_counter),
             tuple_commits: Arc::clone(&self.tuple_commits),
             claims: Arc::clone(&self.claims),
+            checkpoint: Arc::clone(&self.checkpoint),
         }
     }
 }
@@ -310,8 +311,16 @@ pub struct TransactionCoordinator {
     tuple_commits: TupleCommitLog,
     /// Who took an object for writing last
     claims: Arc<RwLock<HashMap<LogicalId, TransactionId>>>,
+    /// Held shared by what runs, and exclusively by checkpoints
+    checkpoint: Arc<RwLock<()>>,
 }
 
+/// Held while a statement runs, or a transaction finishes.
+pub(crate) type StatementGuard = ArcRwLockReadGuard<RawRwLock, ()>;
+
+/// Held during a checkpoint.
+pub(crate) type CheckpointGuard = ArcRwLockWriteGuard<RawRwLock, ()>;
+
 enum ValidationResult {
     Conflict(LogicalId),
     Allowed,
@@ -325,6 +334,7 @@ impl TransactionCoordinator {
             commit_counter: Arc::new(AtomicU64::new(1)),
             tuple_commits: Arc::new(RwLock::new(HashMap::new())),
             claims: Arc::new(RwLock::new(HashMap::new())),
+            checkpoint: Arc::new(RwLock::new(())),
         };
 
         // Load aborted transactions from PageZero into memory
@@ -333,6 +343,18 @@ impl TransactionCoordinator {
         coordinator
     }
 
+    /// What a statement does to the pages and what it logs belong together: a checkpoint has both
+    /// of them, or neither. Statements hold this guard from the start to the end. It must not be
+    /// taken again by who already holds it.
+    pub(crate) fn statement_guard(&self) -> StatementGuard {
+        self.checkpoint.read_arc()
+    }
+
+    /// Waits for the statements that run, and keeps others from starting.
+    pub(crate) fn checkpoint_guard(&self) -> CheckpointGuard {
+        self.checkpoint.write_arc()
+    }
+
     /// Returns the last committed transaction ID from PageZero header
     pub fn get_last_committed(&self) -> TransactionId {
         self.pager.read().get_last_committed_transaction()
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 202125e..4341220 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -8,7 +8,7 @@ use crate::{
         pager::{BtreeBuilder, SharedPager},
     },
     multithreading::coordinator::{
-        Snapshot, TransactionError, TransactionHandle, TransactionState,
+        Snapshot, StatementGuard, TransactionError, TransactionHandle, TransactionState,
     },
     schema::catalog::SharedCatalog,
     tree::{
@@ -136,6 +136,7 @@ pub(crate) struct TransactionLogger {
     tid: TransactionId,
     pager: SharedPager,
     last_lsn: Arc<RwLock<u64>>,
+    is_silent: bool,
 }
 
 impl Clone for TransactionLogger {
@@ -144,6 +145,7 @@ impl Clone for TransactionLogger {
             tid: self.tid,
             pager: self.pager.clone(),
             last_lsn: Arc::clone(&self.last_lsn),
+            is_silent: self.is_silent,
         }
     }
 }
@@ -154,8 +156,18 @@ impl TransactionLogger {
             tid: xid,
             pager,
             last_lsn: Arc::new(RwLock::new(last_lsn)),
+            is_silent: false,
         }
     }
+
+    /// A logger that does not log, for what comes from the log.
+    pub(crate) fn silent(xid: TransactionId, pager: SharedPager) -> Self {
+        Self {
+            is_silent: true,
+            ..Self::new(xid, pager, 0)
+        }
+    }
+
     pub(crate) fn log_commit(&self) -> RuntimeResult<()> {
         self.log_operation(Commit)?;
         Ok(())
@@ -172,6 +184,9 @@ impl TransactionLogger {
     }
 
     pub(crate) fn log_end(&self) -> RuntimeResult<()> {
+        if self.is_silent {
+            return Ok(());
+        }
         self.pager.write().flush_wal()?;
         self.log_operation(End)?;
         Ok(())
@@ -179,11 +194,17 @@ impl TransactionLogger {
 
     /// Checks that records with payloads of the given sizes can be logged.
     pub(crate) fn check_payload(&self, undo: usize, redo: usize) -> RuntimeResult<()> {
+        if self.is_silent {
+            return Ok(());
+        }
         self.pager.read().check_log_payload(undo, redo)?;
         Ok(())
     }
 
     fn log_operation<O: Operation>(&self, operation: O) -> RuntimeResult<()> {
+        if self.is_silent {
+            return Ok(());
+        }
         let new_last_lsn =
             self.pager
                 .write()
@@ -326,6 +347,11 @@ impl TransactionContext {
             .with_pager(self.pager().clone())
     }
 
+    /// Keeps checkpoints away for as long as the guard is held. See [TransactionCoordinator::statement_guard].
+    pub(crate) fn statement_guard(&self) -> Option<StatementGuard> {
+        self.catalog.coordinator().map(|c| c.statement_guard())
+    }
+
     /// Commits the transaction: validation, log commit, commit handle, end.
     pub(crate) fn commit_logged(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
         // The log only says that the transaction committed if it is really going to.
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 2009524..1254574 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -489,11 +489,39 @@ struct TableChanges {
 pub struct DdlExecutor {
     ctx: ThreadContext,
     logger: TransactionLogger,
+    /// Whether the instructions come from the log: the rows were checked before they got there.
+    is_recovery: bool,
 }
 
 impl DdlExecutor {
     pub(crate) fn new(ctx: ThreadContext, logger: TransactionLogger) -> Self {
-        Self { ctx, logger }
+        Self {
+            ctx,
+            logger,
+            is_recovery: false,
+        }
+    }
+
+    /// Creates a DDL executor for what has been logged.
+    pub(crate) fn for_recovery(ctx: ThreadContext, logger: TransactionLogger) -> Self {
+        Self {
+            ctx,
+            logger,
+            is_recovery: true,
+        }
+    }
+
+    /// Executes an instruction that has been logged for the given object.
+    pub(crate) fn redo_instruction(
+        &mut self,
+        instr: &DdlInstruction,
+        object_id: ObjectId,
+    ) -> RuntimeResult<()> {
+        match instr {
+            DdlInstruction::CreateTable(create) => self.create_table(create, Some(object_id))?,
+            other => self.execute_instruction(other)?,
+        };
+        Ok(())
     }
 
     pub fn is_ddl(stmt: &BoundStatement) -> bool {
@@ -684,6 +712,15 @@ impl DdlExecutor {
     }
 
     fn execute_create_table(&mut self, instr: &CreateTableInstr) -> RuntimeResult<DdlResult> {
+        self.create_table(instr, None)
+    }
+
+    /// Creates a table with the given id, or with the next one.
+    fn create_table(
+        &mut self,
+        instr: &CreateTableInstr,
+        object_id: Option<ObjectId>,
+    ) -> RuntimeResult<DdlResult> {
         if self.relation_exists(&instr.table_name) {
             if instr.if_not_exists {
                 return Ok(DdlResult::NoOp);
@@ -698,8 +735,11 @@ impl DdlExecutor {
         columns.extend(instr.columns.iter().cloned());
         Self::validate_definition(&columns, &instr.constraints)?;
 
-        let object_id = self.ctx.catalog().get_next_object_id();
-        let redo_bytes = instr.to_bytes()?;
+        let object_id = match object_id {
+            Some(id) => id,
+            None => self.ctx.catalog().get_next_object_id(),
+        };
+        let redo_bytes = DdlInstruction::CreateTable(instr.clone()).to_bytes()?;
         let undo_bytes = instr.inverse(object_id).to_bytes()?;
         self.logger
             .check_payload(undo_bytes.len(), redo_bytes.len())?;
@@ -793,7 +833,7 @@ impl DdlExecutor {
 
         let id = relation.object_id();
         let undo_bytes = undo_instr.to_bytes()?;
-        let redo_bytes = undo_instr.inverse(id).to_bytes()?;
+        let redo_bytes = DdlInstruction::DropTable(undo_instr.inverse(id)).to_bytes()?;
         self.logger
             .check_payload(undo_bytes.len(), redo_bytes.len())?;
 
@@ -838,7 +878,7 @@ impl DdlExecutor {
             return Err(RuntimeError::Schema(SchemaError::NotATable));
         }
 
-        let redo_bytes = instr.to_bytes()?;
+        let redo_bytes = DdlInstruction::CreateIndex(instr.clone()).to_bytes()?;
         let undo_size = instr.inverse(0).to_bytes()?.len();
         self.logger.check_payload(undo_size, redo_bytes.len())?;
 
@@ -916,7 +956,7 @@ impl DdlExecutor {
             .claim_relation(instr.table_id, &tree_builder, &snapshot)?;
 
         let before = relation.clone();
-        let redo_bytes = instr.to_bytes()?;
+        let redo_bytes = DdlInstruction::AlterTable(instr.clone()).to_bytes()?;
         let undo_size = match &instr.action {
             // What takes it back only names the column.
             AlterActionInstr::AddColumn { .. } => redo_bytes.len(),
@@ -1295,7 +1335,11 @@ impl DdlExecutor {
                 constrained.push_constraint(constraint.clone());
                 let name = relation.name().to_string();
                 let validator = ConstraintValidator::new(&constrained, name, self.ctx.clone());
-                for row in self.live_rows(relation)? {
+                let rows = match self.is_recovery {
+                    true => Vec::new(),
+                    false => self.live_rows(relation)?,
+                };
+                for row in rows {
                     validator.validate_foreign_key_constraints(row.as_slice())?;
                 }
                 format!(
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 5b5c0ab..9cf0015 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -24,7 +24,7 @@ use crate::{
         accessor::{BtreePagePosition, BtreeWriteAccessor, PositionStack, TreeReader},
         bplustree::{Btree, SearchResult},
     },
-    types::{DataType, ObjectId, PageId, RowId, TransactionId, UInt64},
+    types::{DataType, LogicalId, ObjectId, PageId, RowId, TransactionId, UInt64},
 };
 
 /// Result of an insert operation.
@@ -245,13 +245,14 @@ impl IndexTarget {
     }
 
     /// Adds the entries of the rows that a statement is about to write, unless others have the
-    /// same values.
+    /// same values (which is not looked at if it has been already).
     fn add_all(
         &self,
         ctx: &ThreadContext,
         relation: &Relation,
         changes: &[RowChange],
         writes: &mut WriteSet,
+        is_unique: bool,
     ) -> RuntimeResult<()> {
         // The rows that the statement writes count as they are going to be, the others as they are.
         let mut written: HashMap<RowId, Option<Row>> = HashMap::new();
@@ -283,6 +284,9 @@ impl IndexTarget {
                     is_there = true;
                     continue;
                 }
+                if is_unique {
+                    continue;
+                }
                 let taken = match written.get(&row_id) {
                     Some(other) => other.as_ref().is_some_and(|other| *other == existing),
                     None => self.is_taken(ctx, relation, row_id, entry)?,
@@ -337,12 +341,27 @@ impl IndexTarget {
 pub(crate) struct DmlExecutor {
     ctx: ThreadContext,
     logger: TransactionLogger,
+    /// Whether the rows come from the log: their constraints were checked before they got there.
+    is_recovery: bool,
 }
 
 impl DmlExecutor {
     /// Creates a new DML executor with the given transaction context.
     pub(crate) fn new(ctx: ThreadContext, logger: TransactionLogger) -> Self {
-        Self { ctx, logger }
+        Self {
+            ctx,
+            logger,
+            is_recovery: false,
+        }
+    }
+
+    /// Creates a DML executor for what has been logged.
+    pub(crate) fn for_recovery(ctx: ThreadContext, logger: TransactionLogger) -> Self {
+        Self {
+            ctx,
+            logger,
+            is_recovery: true,
+        }
     }
 
     pub fn ctx(&self) -> &ThreadContext {
@@ -396,6 +415,9 @@ impl DmlExecutor {
 
     /// Checks the constraints that do not depend on the other rows of the table.
     fn validate_row(&self, relation: &Relation, row: &Row) -> RuntimeResult<()> {
+        if self.is_recovery {
+            return Ok(());
+        }
         let table_name = relation.name().to_string();
         let validator = ConstraintValidator::new(relation.schema(), table_name, self.ctx.clone());
         validator.validate_not_null_constraints(row.as_slice())?;
@@ -546,7 +568,7 @@ impl DmlExecutor {
 
         self.apply(table_id, |writes| {
             for index in &indexes {
-                index.add_all(&self.ctx, &relation, &changes, writes)?;
+                index.add_all(&self.ctx, &relation, &changes, writes, self.is_recovery)?;
             }
 
             let root = relation.root();
@@ -636,7 +658,7 @@ impl DmlExecutor {
             // Entries come before rows: whoever can see a row finds it.
             let moving = self.ctx.moves_index_entries();
             for index in indexes.iter().filter(|_| moving) {
-                index.add_all(&self.ctx, &relation, &changes, writes)?;
+                index.add_all(&self.ctx, &relation, &changes, writes, self.is_recovery)?;
             }
 
             let root = relation.root();
@@ -721,6 +743,49 @@ impl DmlExecutor {
         Ok(changes.len())
     }
 
+    /// Inserts a row that has been logged.
+    pub(crate) fn redo_insert(
+        &mut self,
+        table_id: ObjectId,
+        row_id: RowId,
+        row: &Row,
+    ) -> RuntimeResult<()> {
+        let tree_builder = self.ctx.tree_builder();
+        self.ctx
+            .catalog()
+            .reserve_row_id(table_id, row_id, &tree_builder)?;
+        let columns: Vec<usize> = (0..row.len()).collect();
+        self.insert_rows_at(table_id, &columns, std::slice::from_ref(row), row_id)
+    }
+
+    /// Updates a row as it has been logged.
+    pub(crate) fn redo_update(
+        &mut self,
+        table_id: ObjectId,
+        row_id: RowId,
+        old_row: &Row,
+        new_row: &Row,
+    ) -> RuntimeResult<()> {
+        let result = self.update_row(table_id, &UInt64(row_id), old_row, new_row)?;
+        self.check_redone(result.updated, table_id, row_id)
+    }
+
+    /// Deletes a row that has been logged.
+    pub(crate) fn redo_delete(&mut self, table_id: ObjectId, row_id: RowId) -> RuntimeResult<()> {
+        let result = self.delete(table_id, &UInt64(row_id))?;
+        self.check_redone(result.deleted, table_id, row_id)
+    }
+
+    fn check_redone(&self, done: bool, table_id: ObjectId, row_id: RowId) -> RuntimeResult<()> {
+        if done {
+            return Ok(());
+        }
+        let row = LogicalId::new(table_id, row_id);
+        Err(RuntimeError::Other(format!(
+            "the log refers to row {row}, which is not there"
+        )))
+    }
+
     /// Leaves the updates of the transaction in place although it is rolled back: they become part
     /// of the versions that they replaced.
     pub(crate) fn keep_updates(&self) -> RuntimeResult<()> {
diff --git a/crates/axmos-db/src/storage/page.rs b/crates/axmos-db/src/storage/page.rs
index dd87f65..1398ac2 100644
--- a/crates/axmos-db/src/storage/page.rs
+++ b/crates/axmos-db/src/storage/page.rs
@@ -12,7 +12,7 @@ use crate::{
         cell::{CellHeader, Slot},
         core::{buffer::MemBlock, traits::ComposedMetadata},
     },
-    types::{PAGE_ZERO, PageId},
+    types::{Lsn, PAGE_ZERO, PageId},
 };
 
 pub(crate) const ABORTED_BITMAP_SIZE: usize = 1024;
@@ -72,6 +72,7 @@ pub(crate) struct PageZeroHeader {
     pub(crate) last_created_transaction: TransactionId,
     pub(crate) last_committed_transaction: TransactionId,
     pub(crate) last_stored_object: ObjectId,
+    pub(crate) checkpoint_lsn: Lsn, // The first log record that is not in the pages
     pub(crate) page_size: u32,
     pub(crate) free_pages: u32,
     pub(crate) padding: u32,
@@ -113,6 +114,7 @@ impl PageZeroHeader {
             last_created_transaction: 0,
             last_committed_transaction: 0,
             last_stored_object: 0,
+            checkpoint_lsn: 0,
             total_pages: 1,
             free_pages: 0,
             first_free_page: None,
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index 188a82e..c9e4371 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -29,6 +29,7 @@ impl Session {
     }
 
     pub fn commit_transaction(&mut self) -> QueryRunnerResult<()> {
+        let _guard = self.ctx.statement_guard();
         self.ctx.commit_logged(&self.logger)?;
         Ok(())
     }
@@ -36,6 +37,7 @@ impl Session {
     /// Rolls the transaction back. Its updates stay: they do not belong to the transaction once it
     /// has asked for that.
     pub fn abort_transaction(&mut self) -> QueryRunnerResult<()> {
+        let _guard = self.ctx.statement_guard();
         if self.ctx.is_running() {
             let child = self.ctx.create_child()?;
             DmlExecutor::new(child, self.logger.clone()).keep_updates()?;
@@ -61,7 +63,8 @@ impl Session {
         let child_ctx = self.ctx.create_child()?;
 
         self.task_runner
-            .run_with_result(move |_| {
+            .run_with_result(move |task| {
+                let _guard = task.coordinator().statement_guard();
                 let runner = QueryRunner::new(child_ctx, logger.clone());
                 let result = runner.prepare_and_run(&sql).map_err(box_err)?;
 
@@ -76,6 +79,7 @@ unsafe impl Sync for Session {}
 
 impl Drop for Session {
     fn drop(&mut self) {
+        let _guard = self.ctx.statement_guard();
         let _ = self.ctx.abort_logged(&self.logger);
     }
 }
-- 
2.43.0


From 69310e55ce38d1c188f1bdd4fd8e273248571cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 25/30] fix: the cache size that a database is opened with is
 used

---
 crates/axmos-db/src/io/pager.rs | 5 +++++
 crates/axmos-db/src/lib.rs      | 1 +
 2 files changed, 6 insertions(+)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index c8c2583..021b255 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -167,6 +167,11 @@ impl Pager {
         Ok(())
     }
 
+    /// Sets how many pages are kept in memory.
+    pub(crate) fn set_cache_size(&mut self, cache_size: usize) {
+        self.cache.set_capacity(cache_size);
+    }
+
     /// Saves a page of the last checkpoint that is about to be overwritten.
     fn save_page(&mut self, page_id: PageId) -> io::Result<()> {
         if page_id >= self.checkpoint_pages || self.journal.has(page_id) {
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index b1b9f77..2e4d4dd 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -226,6 +226,7 @@ impl Database {
 
         // Open pager
         let mut pager = Pager::open(&path)?;
+        pager.set_cache_size(config.cache_size);
 
         // What has been logged since the last checkpoint
         let analysis = pager.run_analysis()?;
-- 
2.43.0


From cc58597ff290515316a73ef2b65213236c0197c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 26/30] verif: points at which thread schedules can be
 perturbed

---
 crates/axmos-db/src/macros/make_shared.rs     |  4 +
 .../src/multithreading/coordinator.rs         | 10 +-
 crates/axmos-db/src/multithreading/frames.rs  |  4 +
 crates/axmos-db/src/schema/catalog.rs         |  3 +
 crates/axmos-db/src/verif.rs                  | 95 +++++++++++++++++++
 5 files changed, 113 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/macros/make_shared.rs b/crates/axmos-db/src/macros/make_shared.rs
index 0125ef6..d18d7af 100644
--- a/crates/axmos-db/src/macros/make_shared.rs
+++ b/crates/axmos-db/src/macros/make_shared.rs
@@ -24,10 +24,14 @@ macro_rules! make_shared {
 
         impl $shared_ty {
             pub fn read(&self) -> parking_lot::RwLockReadGuard<'_, $inner_ty> {
+                #[cfg(axverif)]
+                $crate::verif::sched::point();
                 self.0.read()
             }
 
             pub fn write(&self) -> parking_lot::RwLockWriteGuard<'_, $inner_ty> {
+                #[cfg(axverif)]
+                $crate::verif::sched::point();
                 self.0.write()
             }
 
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 57810b7..61c1952 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -3,7 +3,11 @@ use crate::{
     io::pager::SharedPager,
     types::{LogicalId, ObjectId, TransactionId},
 };
-use parking_lot::{ArcRwLockReadGuard, ArcRwLockWriteGuard, RawRwLock, RwLock};
+#[cfg(axverif)]
+use crate::verif::sched::RwLock;
+#[cfg(not(axverif))]
+use parking_lot::RwLock;
+use parking_lot::{ArcRwLockReadGuard, ArcRwLockWriteGuard, RawRwLock};
 use std::{
     collections::{HashMap, HashSet},
     error::Error,
@@ -312,7 +316,7 @@ pub struct TransactionCoordinator {
     /// Who took an object for writing last
     claims: Arc<RwLock<HashMap<LogicalId, TransactionId>>>,
     /// Held shared by what runs, and exclusively by checkpoints
-    checkpoint: Arc<RwLock<()>>,
+    checkpoint: Arc<parking_lot::RwLock<()>>,
 }
 
 /// Held while a statement runs, or a transaction finishes.
@@ -334,7 +338,7 @@ impl TransactionCoordinator {
             commit_counter: Arc::new(AtomicU64::new(1)),
             tuple_commits: Arc::new(RwLock::new(HashMap::new())),
             claims: Arc::new(RwLock::new(HashMap::new())),
-            checkpoint: Arc::new(RwLock::new(())),
+            checkpoint: Arc::new(parking_lot::RwLock::new(())),
         };
 
         // Load aborted transactions from PageZero into memory
diff --git a/crates/axmos-db/src/multithreading/frames.rs b/crates/axmos-db/src/multithreading/frames.rs
index 2e36692..8418fea 100644
--- a/crates/axmos-db/src/multithreading/frames.rs
+++ b/crates/axmos-db/src/multithreading/frames.rs
@@ -26,6 +26,8 @@ pub trait Latch<P>: Deref<Target = P> {}
 
 impl<P> ReadLatch<P> {
     pub(crate) fn new(lock: &Arc<RwLock<P>>) -> Self {
+        #[cfg(axverif)]
+        crate::verif::sched::point();
         Self(lock.read_arc())
     }
 }
@@ -44,6 +46,8 @@ pub(crate) struct WriteLatch<P>(ArcRwLockWriteGuard<RawRwLock, P>);
 
 impl<P> WriteLatch<P> {
     pub(crate) fn new(lock: &Arc<RwLock<P>>) -> Self {
+        #[cfg(axverif)]
+        crate::verif::sched::point();
         Self(lock.write_arc())
     }
 }
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 4afd8d6..c33bd34 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -26,6 +26,9 @@ use super::{
     stats::{ColumnStats, StatsCollector},
 };
 
+#[cfg(axverif)]
+use crate::verif::sched::Mutex;
+#[cfg(not(axverif))]
 use parking_lot::Mutex;
 use std::collections::{HashMap, HashSet};
 use std::sync::{
diff --git a/crates/axmos-db/src/verif.rs b/crates/axmos-db/src/verif.rs
index 67c6fdb..6cf0315 100644
--- a/crates/axmos-db/src/verif.rs
+++ b/crates/axmos-db/src/verif.rs
@@ -78,6 +78,101 @@ pub mod tap {
     }
 }
 
+/// Perturbation of thread schedules at the points where latches and shared locks are taken.
+pub mod sched {
+    use std::{
+        cell::Cell,
+        sync::atomic::{AtomicU64, Ordering},
+        thread,
+        time::Duration,
+    };
+
+    /// In how many of 65536 passes a thread gives up its turn, and in how many it sleeps.
+    static YIELD: AtomicU64 = AtomicU64::new(0);
+    static SLEEP: AtomicU64 = AtomicU64::new(0);
+    static SEED: AtomicU64 = AtomicU64::new(0);
+
+    thread_local! {
+        static STATE: Cell<u64> = const { Cell::new(0) };
+    }
+
+    pub fn set(seed: u64, yields: u64, sleeps: u64) {
+        SEED.store(seed | 1, Ordering::SeqCst);
+        YIELD.store(yields, Ordering::SeqCst);
+        SLEEP.store(sleeps, Ordering::SeqCst);
+    }
+
+    /// The lock of parking_lot, with a point before it is taken.
+    #[derive(Debug, Default)]
+    pub struct RwLock<T>(parking_lot::RwLock<T>);
+
+    impl<T> RwLock<T> {
+        pub const fn new(v: T) -> Self {
+            Self(parking_lot::RwLock::new(v))
+        }
+        pub fn read(&self) -> parking_lot::RwLockReadGuard<'_, T> {
+            point();
+            self.0.read()
+        }
+        pub fn write(&self) -> parking_lot::RwLockWriteGuard<'_, T> {
+            point();
+            self.0.write()
+        }
+    }
+
+    impl<T> std::ops::Deref for RwLock<T> {
+        type Target = parking_lot::RwLock<T>;
+
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T>(parking_lot::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(v: T) -> Self {
+            Self(parking_lot::Mutex::new(v))
+        }
+        pub fn lock(&self) -> parking_lot::MutexGuard<'_, T> {
+            point();
+            self.0.lock()
+        }
+    }
+
+    impl<T> std::ops::Deref for Mutex<T> {
+        type Target = parking_lot::Mutex<T>;
+
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+    pub(crate) fn point() {
+        let (y, s) = (YIELD.load(Ordering::Relaxed), SLEEP.load(Ordering::Relaxed));
+        if y + s == 0 {
+            return;
+        }
+        let r = STATE.with(|c| {
+            let mut x = c.get();
+            if x == 0 {
+                x = SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed) | 1;
+            }
+            x ^= x << 13;
+            x ^= x >> 7;
+            x ^= x << 17;
+            c.set(x);
+            (x >> 24) & 0xFFFF
+        });
+        if r < s {
+            thread::sleep(Duration::from_micros(1 + r % 60));
+        } else if r < s + y {
+            thread::yield_now();
+        }
+    }
+}
+
 type R<T> = Result<T, String>;
 
 fn es<E: std::fmt::Display>(e: E) -> String {
-- 
2.43.0


From 9b08ad60c19f0b2ad34a3be268f363daebff86e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 27/30] fix: readers keep the root of the tree latched, so that
 what they hold positions of does not change under them

---
 crates/axmos-db/src/multithreading/frames.rs  |  2 +-
 crates/axmos-db/src/runtime/ops/index_scan.rs |  6 +--
 crates/axmos-db/src/runtime/ops/seq_scan.rs   |  6 +--
 crates/axmos-db/src/tree/bplustree.rs         | 50 ++++++++++++++-----
 4 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/frames.rs b/crates/axmos-db/src/multithreading/frames.rs
index 8418fea..68da6bf 100644
--- a/crates/axmos-db/src/multithreading/frames.rs
+++ b/crates/axmos-db/src/multithreading/frames.rs
@@ -28,7 +28,7 @@ impl<P> ReadLatch<P> {
     pub(crate) fn new(lock: &Arc<RwLock<P>>) -> Self {
         #[cfg(axverif)]
         crate::verif::sched::point();
-        Self(lock.read_arc())
+        Self(lock.read_arc_recursive())
     }
 }
 
diff --git a/crates/axmos-db/src/runtime/ops/index_scan.rs b/crates/axmos-db/src/runtime/ops/index_scan.rs
index 48278f1..760a138 100644
--- a/crates/axmos-db/src/runtime/ops/index_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/index_scan.rs
@@ -158,11 +158,11 @@ impl Executor for IndexScan {
             self.stats.rows_scanned += 1;
             let snapshot = self.ctx.snapshot();
 
-            let mut tree = self
+            let tree = self
                 .cursor
-                .as_ref()
+                .as_mut()
                 .ok_or(RuntimeError::CursorUninitialized)?
-                .get_tree();
+                .tree();
             let entry = tree.get_tuple_at_unchecked(next_pos, &self.index_schema)?;
             let entry = entry
                 .as_tuple_ref_with(&self.index_schema)
diff --git a/crates/axmos-db/src/runtime/ops/seq_scan.rs b/crates/axmos-db/src/runtime/ops/seq_scan.rs
index 188c4d3..b239a5d 100644
--- a/crates/axmos-db/src/runtime/ops/seq_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/seq_scan.rs
@@ -92,11 +92,11 @@ impl Executor for SeqScan {
             self.stats.rows_scanned += 1;
             let snapshot = self.ctx.snapshot();
 
-            let mut tree = self
+            let tree = self
                 .cursor
-                .as_ref()
+                .as_mut()
                 .ok_or(RuntimeError::CursorUninitialized)?
-                .get_tree();
+                .tree();
 
             let Some(row) = tree.get_row_at(next_pos, &self.table_schema, &snapshot)? else {
                 continue;
diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 10f716d..693f52d 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -206,12 +206,20 @@ where
     Acc: TreeReader,
 {
     /// Acquires latches on btreepages with the given accessor
+    ///
+    /// The root comes first, and stays latched until the accessor is cleared: whoever changes a
+    /// tree has its root latched for writing, so the positions that a reader holds remain valid.
     pub(crate) fn acquire_with_accessor(&mut self, id: PageId) -> BtreeResult<()> {
         // Page zero is a special page.
         if id == 0 {
             return Ok(());
         };
 
+        let root = self.get_root();
+        if id != root {
+            self.acquire_with_accessor(root)?;
+        }
+
         if self
             .accessor
             .as_ref()
@@ -229,6 +237,14 @@ where
         Ok(())
     }
 
+    /// Releases the latch on a page, unless it is the root.
+    fn release_child(&mut self, id: PageId) -> BtreeResult<()> {
+        if !self.is_root(id) {
+            self.accessor_mut()?.release(id);
+        }
+        Ok(())
+    }
+
     /// Gets a shared reference to a page from the stack.
     pub(crate) fn get_page(&mut self, id: PageId) -> BtreeResult<&BtreePage> {
         self.acquire_with_accessor(id)?;
@@ -437,7 +453,7 @@ where
         loop {
             let right_child = self.get_page(current)?.right_child();
             let num_slots = self.get_page(current)?.num_slots();
-            self.accessor_mut()?.release(current);
+            self.release_child(current)?;
 
             // If right child is not set it means we have reached up a leaf node.
             if let Some(child) = right_child {
@@ -459,7 +475,7 @@ where
         loop {
             let page = self.get_page(current)?;
             let left_child = if page.is_leaf() { None } else { page.child(0) };
-            self.accessor_mut()?.release(current);
+            self.release_child(current)?;
 
             // If left child is not set it means we have reached up a leaf node.
             if let Some(child) = left_child {
@@ -597,7 +613,7 @@ where
         let mut current = self.get_root();
         loop {
             let right_child = self.get_page(current)?.right_child();
-            self.accessor_mut()?.release(current);
+            self.release_child(current)?;
 
             // If right child is not set it means we have reached up a leaf node.
             if let Some(child) = right_child {
@@ -613,13 +629,14 @@ where
     where
         Acc: Default,
     {
-        if self.is_empty()? {
+        let mut tree = self.cloned_shared();
+        if tree.is_empty()? {
             return Err(BtreeError::BtreeEmpty);
         };
 
-        let left_most_position = self.get_left_most()?;
+        let left_most_position = tree.get_left_most()?;
         BtreePositionalIterator::from_position(
-            self.cloned_shared(),
+            tree,
             left_most_position.entry(),
             left_most_position.slot() as isize,
             IterDirection::Forward,
@@ -630,13 +647,14 @@ where
     where
         Acc: Default,
     {
-        if self.is_empty()? {
+        let mut tree = self.cloned_shared();
+        if tree.is_empty()? {
             return Err(BtreeError::BtreeEmpty);
         };
 
-        let right_most_position = self.get_right_most()?;
+        let right_most_position = tree.get_right_most()?;
         BtreePositionalIterator::from_position(
-            self.cloned_shared(),
+            tree,
             right_most_position.entry(),
             right_most_position.slot() as isize,
             IterDirection::Backward,
@@ -1664,6 +1682,7 @@ where
                 overflow_chains.insert(ovf);
             }
         }
+        self.accessor_mut()?.clear();
 
         // Deallocate overflow chains (now deduplicated)
         for overflow_start in overflow_chains {
@@ -1852,13 +1871,14 @@ impl BtreePositionalIterator {
     fn adv(&mut self) -> BtreeResult<bool> {
         if let Some(current) = self.current_page {
             self.current_page = self.tree.get_page(current)?.next_sibling();
-            self.tree.accessor_mut()?.release(current);
+            self.tree.release_child(current)?;
             self.current_slot = 0;
 
             if let Some(next) = self.current_page {
                 return Ok(true);
             };
         };
+        self.tree.accessor_mut()?.clear();
         Ok(false)
     }
 
@@ -1868,13 +1888,12 @@ impl BtreePositionalIterator {
             self.current_page = self.tree.get_page(current)?.prev_sibling();
             if let Some(prev) = self.current_page {
                 self.current_slot = (self.tree.get_page(prev)?.num_slots() - 1) as isize;
-                self.tree.accessor_mut()?.release(current);
+                self.tree.release_child(current)?;
                 return Ok(true);
             };
-
-            self.tree.accessor_mut()?.release(current);
         }
 
+        self.tree.accessor_mut()?.clear();
         Ok(false)
     }
 
@@ -1882,6 +1901,11 @@ impl BtreePositionalIterator {
         self.tree.cloned_shared()
     }
 
+    /// The tree that is being iterated over, to read what is at the positions.
+    pub(crate) fn tree(&mut self) -> &mut Btree<BtreeReadAccessor> {
+        &mut self.tree
+    }
+
     pub(crate) fn get_tree_mut(&self) -> Btree<BtreeWriteAccessor> {
         self.tree.cloned_mut()
     }
-- 
2.43.0


From 13e611712df5cd10c3559b4d6a8c7c840a8a35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 28/30] fix: ANALYZE does not get in the way of those who write
 to the table

---
 crates/axmos-db/src/runtime/ddl.rs    |  1 -
 crates/axmos-db/src/schema/catalog.rs | 35 ++++++++++++++++++---------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 1254574..2cd5dcb 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -971,7 +971,6 @@ impl DdlExecutor {
                 let change = RelationChange {
                     schema: Some(relation.schema().clone()),
                     root: Some(relation.root()),
-                    stats: None,
                 };
                 self.ctx.catalog().update_relation(
                     instr.table_id,
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index c33bd34..faf0e82 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -139,7 +139,6 @@ make_shared_readonly!(SharedCatalog, Catalog);
 pub(crate) struct RelationChange {
     pub(crate) schema: Option<Schema>,
     pub(crate) root: Option<PageId>,
-    pub(crate) stats: Option<Stats>,
 }
 
 pub struct Catalog {
@@ -392,11 +391,7 @@ impl Catalog {
                 continue;
             };
 
-            let change = RelationChange {
-                stats: Some(stats),
-                ..Default::default()
-            };
-            match self.update_relation(id, change, builder, snapshot) {
+            match self.store_stats(id, &stats, builder, snapshot) {
                 // Somebody is working on it. The statistics can wait.
                 Err(CatalogError::Conflict(_)) => {}
                 other => other?,
@@ -617,6 +612,29 @@ impl Catalog {
         Ok(first)
     }
 
+    /// Stores the statistics of a relation. They are but a hint, which does not belong to any
+    /// version of the relation: whoever works on it goes on as if nothing had happened.
+    fn store_stats(
+        &self,
+        id: ObjectId,
+        stats: &Stats,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let _entries = self.entries.lock();
+        let schema = meta_table_schema();
+        let column = schema.bind_value("stats")?;
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
+
+        let mut entry = self.get_entry(id, &mut meta_table)?;
+        self.check_entry(id, &entry, snapshot)?;
+
+        let hint = HashMap::from([(column, DataType::Blob(stats.to_blob()?))]);
+        entry.overwrite_with(&hint, &schema)?;
+        meta_table.update(self.meta_table, entry, &schema)?;
+        Ok(())
+    }
+
     /// Makes sure that a row id is not handed out any more.
     pub(crate) fn reserve_row_id(
         &self,
@@ -721,11 +739,6 @@ impl Catalog {
             target[column] = DataType::Blob(table_schema.to_blob()?);
         }
 
-        if let Some(table_stats) = change.stats {
-            let column = schema.bind_column("stats")?;
-            target[column] = DataType::Blob(table_stats.to_blob()?);
-        }
-
         let newest = entry.as_tuple_ref_with(&schema).to_row_with(&schema)?;
         let counter = schema.bind_column("next_row_id")?;
         let modified: HashMap<usize, DataType> = (schema.num_keys()..schema.num_columns())
-- 
2.43.0


From 1f51f681381fde0ebcc2a738c073f2febb9ca5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 29/30] fix: no statement runs in a transaction that VACUUM has
 just aborted

---
 crates/axmos-db/src/tcp/session.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index c9e4371..b765712 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     box_err,
-    multithreading::{coordinator::TransactionError, runner::SharedTaskRunner},
+    multithreading::{coordinator::{TransactionError, TransactionState}, runner::SharedTaskRunner},
     runtime::{
         QueryError, QueryResult, QueryRunner, QueryRunnerResult, RuntimeError,
         context::{TransactionContext, TransactionLogger},
@@ -65,6 +65,12 @@ impl Session {
         self.task_runner
             .run_with_result(move |task| {
                 let _guard = task.coordinator().statement_guard();
+                // VACUUM may have come first.
+                let state = task.coordinator().transaction_state(child_ctx.tid());
+                if state != Some(TransactionState::Active) {
+                    let error = RuntimeError::from(TransactionError::TransactionNotStarted);
+                    return Err(box_err(error));
+                }
                 let runner = QueryRunner::new(child_ctx, logger.clone());
                 let result = runner.prepare_and_run(&sql).map_err(box_err)?;
 
-- 
2.43.0


From 69928c6dcf88bc49890e8867daa785caca34a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 30/30] fix: transactions that begin while another one commits
 conflict with what it wrote

---
 .../src/multithreading/coordinator.rs         | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 61c1952..72693e8 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -488,6 +488,9 @@ impl TransactionCoordinator {
         let state = txs.get(&txid).map(|entry| entry.state());
         if state != Some(TransactionState::Committing) {
             self.prepare_in(&mut txs, txid)?;
+        } else if let Some(entry) = txs.get(&txid) {
+            // Transactions that began since it was prepared do not see what it did.
+            self.stamp_commit(entry);
         }
         Self::set_transaction_state(&mut txs, txid, TransactionState::Committed)?;
 
@@ -694,18 +697,20 @@ impl TransactionCoordinator {
         }
 
         // Validation passed, assign commit timestamp and record tuple commits
-        let commit_ts = self.commit_counter.fetch_add(1, Ordering::SeqCst);
-
-        {
-            let mut tuple_commits = self.tuple_commits.write();
-            for logical_id in write_set {
-                tuple_commits.insert(logical_id, commit_ts);
-            }
-        }
+        self.stamp_commit(entry);
 
         Ok(ValidationResult::Allowed)
     }
 
+    /// Assigns a commit timestamp to what a transaction has written.
+    fn stamp_commit(&self, entry: &TransactionMetadata) {
+        let commit_ts = self.commit_counter.fetch_add(1, Ordering::SeqCst);
+        let mut tuple_commits = self.tuple_commits.write();
+        for logical_id in entry.write_set().keys() {
+            tuple_commits.insert(*logical_id, commit_ts);
+        }
+    }
+
     /// Cleanup old entries from tuple_commits (call periodically)
     pub fn cleanup_tuple_commits(&self, min_active_start_ts: u64) {
         let mut tuple_commits = self.tuple_commits.write();
-- 
2.43.0

