//! A datastore of somebody else's make, which fails now and then: the
//! in-memory datastore behind a door that may stick. A failing call has done
//! nothing.
use indradb::*;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use uuid::Uuid;

extern "C" {
    fn sim_choose(s: u32, n: u32, ppm: u32) -> u32;
}
const ST_WORK: u32 = 7;

#[derive(Default)]
pub struct Odds {
    /// Per million: of an error in a call, of a panic when a transaction begins.
    pub err: AtomicU32,
    pub panic: AtomicU32,
    /// Of taking some time before one begins, and how long, in microseconds.
    pub slow: AtomicU32,
    pub slow_us: AtomicU64,
    /// So many calls take that long, before they hold anything.
    pub stick: AtomicU64,
    pub stick_us: AtomicU64,
    pub errs: AtomicU64,
    pub panics: AtomicU64,
}
pub struct Flaky {
    pub inner: MemoryDatastore,
    pub odds: Odds,
}
pub struct FlakyTxn<'a> {
    t: <MemoryDatastore as Datastore>::Transaction<'a>,
    o: &'a Odds,
}
pub const SAYS: &str = "flaky datastore";

fn door(o: &Odds) -> Result<()> {
    if unsafe { sim_choose(ST_WORK, 2, o.err.load(Ordering::Relaxed)) } != 0 {
        o.errs.fetch_add(1, Ordering::Relaxed);
        return Err(Error::Datastore(SAYS.into()));
    }
    Ok(())
}
impl Datastore for Flaky {
    type Transaction<'a> = FlakyTxn<'a>;
    fn transaction(&self) -> FlakyTxn<'_> {
        let stick = &self.odds.stick;
        if stick.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |n| n.checked_sub(1)).is_ok() {
            std::thread::sleep(std::time::Duration::from_micros(self.odds.stick_us.load(Ordering::Relaxed)));
        }
        if unsafe { sim_choose(ST_WORK, 2, self.odds.slow.load(Ordering::Relaxed)) } != 0 {
            std::thread::sleep(std::time::Duration::from_micros(self.odds.slow_us.load(Ordering::Relaxed)));
        }
        if unsafe { sim_choose(ST_WORK, 2, self.odds.panic.load(Ordering::Relaxed)) } != 0 {
            self.odds.panics.fetch_add(1, Ordering::Relaxed);
            panic!("flaky datastore panics");
        }
        FlakyTxn { t: self.inner.transaction(), o: &self.odds }
    }
}
/// Fails at some item.
fn drip<'a, T: 'a>(o: &'a Odds, i: DynIter<'a, T>) -> DynIter<'a, T> {
    Box::new(i.map(move |x| {
        door(o)?;
        x
    }))
}
impl<'a> Transaction<'a> for FlakyTxn<'a> {
    fn vertex_count(&self) -> u64 {
        self.t.vertex_count()
    }
    fn all_vertices(&'a self) -> Result<DynIter<'a, Vertex>> {
        door(self.o)?;
        Ok(drip(self.o, self.t.all_vertices()?))
    }
    fn range_vertices(&'a self, offset: Uuid) -> Result<DynIter<'a, Vertex>> {
        door(self.o)?;
        Ok(drip(self.o, self.t.range_vertices(offset)?))
    }
    fn specific_vertices(&'a self, ids: Vec<Uuid>) -> Result<DynIter<'a, Vertex>> {
        door(self.o)?;
        Ok(drip(self.o, self.t.specific_vertices(ids)?))
    }
    fn vertex_ids_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Uuid>>> {
        door(self.o)?;
        Ok(self.t.vertex_ids_with_property(name)?.map(|i| drip(self.o, i)))
    }
    fn vertex_ids_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Uuid>>> {
        door(self.o)?;
        Ok(self.t.vertex_ids_with_property_value(name, value)?.map(|i| drip(self.o, i)))
    }
    fn edge_count(&self) -> u64 {
        self.t.edge_count()
    }
    fn all_edges(&'a self) -> Result<DynIter<'a, Edge>> {
        door(self.o)?;
        Ok(drip(self.o, self.t.all_edges()?))
    }
    fn range_edges(&'a self, offset: Edge) -> Result<DynIter<'a, Edge>> {
        door(self.o)?;
        Ok(drip(self.o, self.t.range_edges(offset)?))
    }
    fn range_reversed_edges(&'a self, offset: Edge) -> Result<DynIter<'a, Edge>> {
        door(self.o)?;
        Ok(drip(self.o, self.t.range_reversed_edges(offset)?))
    }
    fn specific_edges(&'a self, edges: Vec<Edge>) -> Result<DynIter<'a, Edge>> {
        door(self.o)?;
        Ok(drip(self.o, self.t.specific_edges(edges)?))
    }
    fn edges_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Edge>>> {
        door(self.o)?;
        Ok(self.t.edges_with_property(name)?.map(|i| drip(self.o, i)))
    }
    fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
        door(self.o)?;
        Ok(self.t.edges_with_property_value(name, value)?.map(|i| drip(self.o, i)))
    }
    fn vertex_property(&self, vertex: &Vertex, name: Identifier) -> Result<Option<Json>> {
        door(self.o)?;
        self.t.vertex_property(vertex, name)
    }
    fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> {
        door(self.o)?;
        Ok(drip(self.o, self.t.all_vertex_properties_for_vertex(vertex)?))
    }
    fn edge_property(&self, edge: &Edge, name: Identifier) -> Result<Option<Json>> {
        door(self.o)?;
        self.t.edge_property(edge, name)
    }
    fn all_edge_properties_for_edge(&'a self, edge: &Edge) -> Result<DynIter<'a, (Identifier, Json)>> {
        door(self.o)?;
        Ok(drip(self.o, self.t.all_edge_properties_for_edge(edge)?))
    }
    fn delete_vertices(&mut self, vertices: Vec<Vertex>) -> Result<()> {
        door(self.o)?;
        self.t.delete_vertices(vertices)
    }
    fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<()> {
        door(self.o)?;
        self.t.delete_edges(edges)
    }
    fn delete_vertex_properties(&mut self, props: Vec<(Uuid, Identifier)>) -> Result<()> {
        door(self.o)?;
        self.t.delete_vertex_properties(props)
    }
    fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<()> {
        door(self.o)?;
        self.t.delete_edge_properties(props)
    }
    fn sync(&self) -> Result<()> {
        door(self.o)?;
        self.t.sync()
    }
    fn create_vertex(&mut self, vertex: &Vertex) -> Result<bool> {
        door(self.o)?;
        self.t.create_vertex(vertex)
    }
    fn create_edge(&mut self, edge: &Edge) -> Result<bool> {
        door(self.o)?;
        self.t.create_edge(edge)
    }
    fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> Result<()> {
        door(self.o)?;
        self.t.bulk_insert(items)
    }
    fn index_property(&mut self, name: Identifier) -> Result<()> {
        door(self.o)?;
        self.t.index_property(name)
    }
    fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()> {
        door(self.o)?;
        self.t.set_vertex_properties(vertices, name, value)
    }
    fn set_edge_properties(&mut self, edges: Vec<Edge>, name: Identifier, value: &Json) -> Result<()> {
        door(self.o)?;
        self.t.set_edge_properties(edges, name, value)
    }
}
