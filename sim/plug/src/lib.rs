//! A plugin whose argument is a list of steps. Its copy of the plugin host is
//! linked into the library, as that of any plugin is.
use indradb::{Edge, Identifier, Json, Transaction, Vertex};
use indradb_plugin_host as plugin;
use plugin::Error;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use uuid::Uuid;

struct Script;

fn bad(s: &str) -> Error {
    Error::InvalidArgument(format!("bad step: {s}"))
}
fn id(v: &Value) -> Result<Uuid, Error> {
    v.as_str().and_then(|s| u128::from_str_radix(s, 16).ok()).map(Uuid::from_u128).ok_or_else(|| bad("id"))
}
fn name(v: &Value) -> Result<Identifier, Error> {
    v.as_str().and_then(|s| Identifier::new(s).ok()).ok_or_else(|| bad("name"))
}
fn edge(v: &Value) -> Result<Edge, Error> {
    Ok(Edge::new(id(&v[0])?, name(&v[1])?, id(&v[2])?))
}
fn hex(u: Uuid) -> Value {
    json!(format!("{:x}", u.as_u128()))
}

struct Mapper {
    n: AtomicU64,
    at: u64,
    how: u64,
}
impl plugin::util::VertexMapper for Mapper {
    fn num_threads(&self) -> usize {
        2
    }
    fn map(&self, _: Vertex) -> Result<(), Error> {
        let k = self.n.fetch_add(1, Ordering::SeqCst) + 1;
        if k == self.at {
            match self.how {
                1 => return Err(bad("the mapper fails")),
                2 => std::panic::resume_unwind(Box::new("the mapper panics")),
                _ => {}
            }
        }
        Ok(())
    }
}

fn vertices<'a>(txn: &mut (dyn Transaction<'a> + 'a), ids: Vec<Uuid>) -> Result<Vec<Vertex>, Error> {
    let p = txn as *const (dyn Transaction<'a> + 'a);
    Ok(unsafe { (*p).specific_vertices(ids)? }.collect::<Result<Vec<_>, _>>()?)
}
fn edges<'a>(txn: &mut (dyn Transaction<'a> + 'a), e: Edge) -> Result<Vec<Edge>, Error> {
    let p = txn as *const (dyn Transaction<'a> + 'a);
    Ok(unsafe { (*p).specific_edges(vec![e])? }.collect::<Result<Vec<_>, _>>()?)
}

fn step<'a>(txn: &mut (dyn Transaction<'a> + 'a), s: &Value) -> Result<Value, Error> {
    Ok(match s[0].as_str().unwrap_or("") {
        "cv" => json!(txn.create_vertex(&Vertex::with_id(id(&s[1])?, name(&s[2])?))?),
        "ce" => json!(txn.create_edge(&edge(&s[1])?)?),
        "svp" => {
            let v = vertices(txn, vec![id(&s[1])?])?;
            txn.set_vertex_properties(v.iter().map(|v| v.id).collect(), name(&s[2])?, &Json::new(s[3].clone()))?;
            json!(v.len())
        }
        "sep" => {
            let e = edges(txn, edge(&s[1])?)?;
            let n = e.len();
            txn.set_edge_properties(e, name(&s[2])?, &Json::new(s[3].clone()))?;
            json!(n)
        }
        "dv" => {
            let v = vertices(txn, vec![id(&s[1])?])?;
            let n = v.len();
            txn.delete_vertices(v)?;
            json!(n)
        }
        "de" => {
            let e = edges(txn, edge(&s[1])?)?;
            let n = e.len();
            txn.delete_edges(e)?;
            json!(n)
        }
        "dvp" => {
            txn.delete_vertex_properties(vec![(id(&s[1])?, name(&s[2])?)])?;
            Value::Null
        }
        "idx" => {
            txn.index_property(name(&s[1])?)?;
            Value::Null
        }
        "vc" => json!(txn.vertex_count()),
        "ec" => json!(txn.edge_count()),
        "sv" => {
            let v = vertices(txn, vec![id(&s[1])?])?;
            match v.first() {
                Some(v) => json!(v.t.as_str()),
                None => Value::Null,
            }
        }
        "av" => {
            let p = txn as *const (dyn Transaction<'a> + 'a);
            let v = unsafe { (*p).all_vertices()? }.collect::<Result<Vec<_>, _>>()?;
            json!(v.iter().map(|v| hex(v.id)).collect::<Vec<_>>())
        }
        "vp" => {
            let v = vertices(txn, vec![id(&s[1])?])?;
            match v.first() {
                Some(v) => match txn.vertex_property(v, name(&s[2])?)? {
                    Some(x) => json!([(*x.0).clone()]),
                    None => json!([]),
                },
                None => Value::Null,
            }
        }
        // Reads a number and writes the next one.
        "inc" => {
            let v = vertices(txn, vec![id(&s[1])?])?;
            match v.first() {
                Some(v) => {
                    let k = txn.vertex_property(v, name(&s[2])?)?.and_then(|x| x.0.as_u64()).unwrap_or(0) + 1;
                    txn.set_vertex_properties(vec![v.id], name(&s[2])?, &Json::new(json!(k)))?;
                    json!(k)
                }
                None => Value::Null,
            }
        }
        // Visits the vertices in parallel; fails or panics at one of them.
        "map" => {
            let m = Arc::new(Mapper { n: AtomicU64::new(0), at: s[1].as_u64().unwrap_or(0), how: s[2].as_u64().unwrap_or(0) });
            plugin::util::map(txn, m.clone())?;
            json!(m.n.load(Ordering::SeqCst))
        }
        "sleep" => {
            std::thread::sleep(Duration::from_micros(s[1].as_u64().unwrap_or(0)));
            Value::Null
        }
        "fail" => return Err(Error::Other("the plugin fails".into())),
        // As a panic is, without the message on stderr.
        "panic" => std::panic::resume_unwind(Box::new("the plugin panics")),
        s => return Err(bad(s)),
    })
}

impl plugin::Plugin for Script {
    fn call<'a>(&self, txn: &mut (dyn Transaction<'a> + 'a), arg: Json) -> Result<Json, Error> {
        let steps = arg.0.as_array().ok_or_else(|| bad("no list"))?;
        let mut out = Vec::new();
        for s in steps {
            out.push(step(txn, s)?);
        }
        Ok(Json::new(Value::Array(out)))
    }
}

plugin::register_plugins!(1, "script", || Box::new(Script), "another", || Box::new(Script));
