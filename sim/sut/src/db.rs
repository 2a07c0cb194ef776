use indradb::*;
use std::sync::Arc;
use uuid::Uuid;

/// A database of either kind. Every call runs the repository's own code.
pub enum Db {
    Mem(Arc<Database<MemoryDatastore>>),
    Rocks(Arc<Database<RocksdbDatastore>>),
    Flaky(Arc<Database<crate::flaky::Flaky>>),
}

macro_rules! each {
    ($s:expr, $d:ident => $e:expr) => {
        match $s {
            Db::Mem($d) => $e,
            Db::Rocks($d) => $e,
            Db::Flaky($d) => $e,
        }
    };
}

impl Db {
    pub fn mem() -> Db {
        Db::Mem(Arc::new(MemoryDatastore::new_db()))
    }
    pub fn flaky() -> Db {
        Db::Flaky(Arc::new(Database::new(crate::flaky::Flaky { inner: MemoryDatastore::new_db().datastore, odds: Default::default() })))
    }
    pub fn mem_create(path: &str) -> Db {
        Db::Mem(Arc::new(MemoryDatastore::create_msgpack_db(path)))
    }
    pub fn mem_read(path: &str) -> std::result::Result<Db, String> {
        MemoryDatastore::read_msgpack_db(path).map(|d| Db::Mem(Arc::new(d))).map_err(|e| e.to_string())
    }
    pub fn rocks(path: &str) -> Result<Db> {
        RocksdbDatastore::new_db(path).map(|d| Db::Rocks(Arc::new(d)))
    }
    /// Opens a RocksDB database the ways a user can.
    pub fn rocks_kind(path: &str, kind: u32) -> Result<Db> {
        match kind {
            0 => Db::rocks(path),
            k => RocksdbDatastore::new_db_with_options(path, &rocks_options(k)).map(|d| Db::Rocks(Arc::new(d))),
        }
    }
    pub fn rocks_repair(path: &str, kind: u32) -> Result<()> {
        RocksdbDatastore::repair(path, &rocks_options(kind))
    }
    pub fn sync(&self) -> Result<()> {
        each!(self, d => d.sync())
    }
    pub fn create_vertex(&self, v: &Vertex) -> Result<bool> {
        each!(self, d => d.create_vertex(v))
    }
    pub fn create_vertex_from_type(&self, t: Identifier) -> Result<Uuid> {
        each!(self, d => d.create_vertex_from_type(t))
    }
    pub fn create_edge(&self, e: &Edge) -> Result<bool> {
        each!(self, d => d.create_edge(e))
    }
    pub fn get(&self, q: Query) -> Result<Vec<QueryOutputValue>> {
        each!(self, d => d.get(q))
    }
    pub fn delete(&self, q: Query) -> Result<()> {
        each!(self, d => d.delete(q))
    }
    pub fn set_properties(&self, q: Query, name: Identifier, value: &Json) -> Result<()> {
        each!(self, d => d.set_properties(q, name, value))
    }
    pub fn bulk_insert(&self, items: Vec<BulkInsertItem>) -> Result<()> {
        each!(self, d => d.bulk_insert(items))
    }
    /// Sets a property of a new vertex to a number and reads it back.
    pub fn float_round_trip(&self, x: f64) -> Result<Option<f64>> {
        let v = Vertex::with_id(Uuid::from_u128(77), Identifier::new("t").unwrap());
        let n = Identifier::new("p").unwrap();
        self.create_vertex(&v)?;
        self.set_properties(SpecificVertexQuery::single(v.id).into(), n, &serde_json::json!(x).into())?;
        let out = self.get(SpecificVertexQuery::single(v.id).properties().unwrap().name(n).into())?;
        Ok(match &out[0] {
            QueryOutputValue::VertexProperties(p) if p.len() == 1 => p[0].props[0].value.0.as_f64(),
            _ => None,
        })
    }
    pub fn index_property(&self, name: Identifier) -> Result<()> {
        each!(self, d => d.index_property(name))
    }
}

/// 1: few open files; 2 and 3: tiny buffers, so that flushes and compactions
/// happen all the time; 0 and others: the defaults.
pub fn rocks_options(kind: u32) -> rocksdb::Options {
    let mut o = RocksdbDatastore::get_options(if kind == 1 { Some(1) } else { None });
    if kind >= 2 {
        o.set_write_buffer_size(64 << 10);
        o.set_db_write_buffer_size(if kind >= 3 { 32 << 10 } else { 128 << 10 });
        o.set_target_file_size_base(64 << 10);
        o.set_level_zero_file_num_compaction_trigger(2);
        o.set_max_bytes_for_level_base(128 << 10);
        o.set_max_bytes_for_level_multiplier(2.0);
        if kind >= 3 {
            o.set_max_background_jobs(4);
            o.set_max_open_files(10);
            o.set_keep_log_file_num(2);
        }
        if kind == 4 {
            // A few keys per block, each read from disk when it is needed.
            let mut b = rocksdb::BlockBasedOptions::default();
            b.set_block_size(64);
            b.disable_cache();
            o.set_block_based_table_factory(&b);
        }
    }
    o
}
