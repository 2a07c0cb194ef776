//! Mapping over vertices the way a plugin does.
use crate::db::Db;
use indradb_plugin_host::util::{map, VertexMapper};
use indradb_plugin_host::Error;
use std::sync::Arc;

pub use indradb_plugin_host::Error as PluginError;

pub struct Mapper {
    pub threads: usize,
    pub f: Box<dyn Fn(indradb::Vertex) -> Result<(), Error> + Send + Sync>,
}
impl VertexMapper for Mapper {
    fn num_threads(&self) -> usize {
        self.threads
    }
    fn map(&self, v: indradb::Vertex) -> Result<(), Error> {
        (self.f)(v)
    }
}
/// A mapper that leaves the number of threads at its default.
pub struct Default8(pub Mapper);
impl VertexMapper for Default8 {
    fn map(&self, v: indradb::Vertex) -> Result<(), Error> {
        (self.0.f)(v)
    }
}
fn on<M: VertexMapper>(db: &Db, m: Arc<M>) -> Result<(), Error> {
    use indradb::Datastore;
    match db {
        Db::Mem(d) => map(&d.datastore.transaction(), m),
        Db::Rocks(d) => map(&d.datastore.transaction(), m),
        Db::Flaky(d) => map(&d.datastore.transaction(), m),
    }
}
/// `threads` None: the default of the library.
pub fn run(db: &Db, threads: Option<usize>, f: Box<dyn Fn(indradb::Vertex) -> Result<(), Error> + Send + Sync>) -> Result<(), Error> {
    match threads {
        Some(threads) => on(db, Arc::new(Mapper { threads, f })),
        None => on(db, Arc::new(Default8(Mapper { threads: 0, f }))),
    }
}
