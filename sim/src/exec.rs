//! Runs calls on a database and reads whole graphs back.
use crate::model::*;
use crate::rt::*;
use indradb::{BulkInsertItem, Error, Vertex};
use sut::db::Db;
use sut::net::{NetError, Remote};

pub fn err_kind(e: &Error) -> Res {
    let k = match e {
        Error::NotIndexed => ErrK::NotIndexed,
        Error::OperationOnQuery => ErrK::OnQuery,
        Error::UuidTaken => ErrK::UuidTaken,
        Error::Unsupported => ErrK::Unsupported,
        _ => ErrK::Other,
    };
    Res::Err(k, format!("{e}"))
}

pub fn bulk_item(i: &Item) -> BulkInsertItem {
    match i {
        Item::V(v, t) => BulkInsertItem::Vertex(Vertex::with_id(uuid(*v), ident(*t))),
        Item::E(e) => BulkInsertItem::Edge(edge(e)),
        Item::VP(v, n, x) => BulkInsertItem::VertexProperty(uuid(*v), ident(*n), json(x)),
        Item::EP(e, n, x) => BulkInsertItem::EdgeProperty(edge(e), ident(*n), json(x)),
    }
}

/// The calls of the local database and of the client alike.
macro_rules! calls {
    ($db:expr, $op:expr) => {
        match $op {
            Op::CreateV(v, t) => Res::Bool($db.create_vertex(&Vertex::with_id(uuid(*v), ident(*t)))?),
            Op::CreateVT(t) => Res::Id($db.create_vertex_from_type(ident(*t))?.as_u128()),
            Op::CreateE(e) => Res::Bool($db.create_edge(&edge(e))?),
            Op::Get(q) => {
                hstat(h::QUERIES, 1);
                let q = q.to_indra();
                Res::Outs($db.get(q)?.iter().map(from_indra).collect())
            }
            Op::Delete(q) => {
                $db.delete(q.to_indra())?;
                Res::Unit
            }
            Op::SetP(q, n, x) => {
                $db.set_properties(q.to_indra(), ident(*n), &json(x))?;
                Res::Unit
            }
            Op::Bulk(items) => {
                hstat(h::BULK, items.len() as u64);
                $db.bulk_insert(items.iter().map(bulk_item).collect())?;
                Res::Unit
            }
            Op::Index(n) => {
                $db.index_property(ident(*n))?;
                Res::Unit
            }
            Op::Sync => {
                hstat(h::SYNCS, 1);
                $db.sync()?;
                Res::Unit
            }
            Op::Plug(..) => unreachable!(),
        }
    };
}
fn run(db: &Db, op: &Op) -> Result<Res, Error> {
    Ok(calls!(db, op))
}
fn run_remote(db: &mut Remote, op: &Op) -> Result<Res, NetError> {
    if let Op::Plug(name, steps) = op {
        let name = sym_name(*name);
        return Ok(Res::Json(val(&db.execute_plugin(&name, indradb::Json::new(plug_arg(&name, steps)))?.0)));
    }
    Ok(calls!(db, op))
}

/// What a client's error says: the server's own error, or a failure between
/// them, after which the call may or may not have happened.
pub fn net_err(e: NetError) -> Res {
    if let NetError::Status(code, m) = &e {
        if code == "Internal" {
            for (k, x) in [
                (ErrK::NotIndexed, Error::NotIndexed),
                (ErrK::OnQuery, Error::OperationOnQuery),
                (ErrK::UuidTaken, Error::UuidTaken),
                (ErrK::Unsupported, Error::Unsupported),
            ] {
                if *m == x.to_string() {
                    return Res::Err(k, m.clone());
                }
            }
        }
        return Res::Err(ErrK::Net, format!("status {code} {m}"));
    }
    Res::Err(ErrK::Net, format!("{e:?}"))
}
/// One call through the client.
pub fn exec_remote(db: &mut Remote, op: &Op) -> Res {
    hstat(h::CALLS, 1);
    tr!("remote call   {op:?}");
    let r = match catch(|| run_remote(db, op)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => net_err(e),
        Err(p) => Res::Panic(p),
    };
    if r.is_err() {
        hstat(h::FAILED, 1);
    }
    if let Res::Err(ErrK::Net, _) = r {
        hstat(h::CLIENT_ERR, 1);
    }
    tr!("remote return {op:?} = {r:?}");
    r
}

/// One call; a panic is an outcome of its own.
pub fn exec(db: &Db, op: &Op) -> Res {
    hstat(h::CALLS, 1);
    tr!("call   {op:?}");
    let r = match catch(|| run(db, op)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => err_kind(&e),
        Err(p) => Res::Panic(p),
    };
    if r.is_err() {
        hstat(h::FAILED, 1);
    }
    tr!("return {op:?} = {r:?}");
    r
}

/// The names, values and identifiers a run uses.
#[derive(Clone, Debug, Default)]
pub struct Uni {
    pub ids: Vec<Vid>,
    pub types: Vec<Sym>,
    pub etypes: Vec<Sym>,
    pub names: Vec<Sym>,
    pub vals: Vec<Val>,
}

fn get1(db: &Db, q: &Q) -> Result<Out, String> {
    match exec(db, &Op::Get(q.clone())) {
        Res::Outs(mut o) if o.len() == 1 => Ok(o.pop().unwrap()),
        r => Err(format!("{q:?} gave {r:?}")),
    }
}

/// Reads the whole graph through the plainest queries.
pub fn dump(db: &Db, u: &Uni, bulk_overwrites: bool) -> Result<Graph, String> {
    let mut g = Graph { bulk_overwrites, ..Default::default() };
    match get1(db, &Q::AllV)? {
        Out::V(v) => {
            for (i, t) in v {
                if g.v.insert(i, t).is_some() {
                    return Err(format!("AllV lists {} twice", vn(i)));
                }
            }
        }
        o => return Err(format!("AllV gave {o:?}")),
    }
    match get1(db, &Q::AllE)? {
        Out::E(v) => {
            for e in v {
                if !g.e.insert(e) {
                    return Err(format!("AllE lists {} twice", en(&e)));
                }
            }
        }
        o => return Err(format!("AllE gave {o:?}")),
    }
    match get1(db, &Q::Props { inner: Box::new(Q::AllV), name: None })? {
        Out::VP(v) => {
            for ((i, t), ps) in v {
                if g.v.get(&i) != Some(&t) {
                    return Err(format!("properties of vertex {} which AllV does not list", vn(i)));
                }
                for (n, x) in ps {
                    if g.vp.insert((i, n), x).is_some() {
                        return Err(format!("property {}.{} is listed twice", vn(i), sym_name(n)));
                    }
                }
            }
        }
        o => return Err(format!("AllV.properties gave {o:?}")),
    }
    match get1(db, &Q::Props { inner: Box::new(Q::AllE), name: None })? {
        Out::EP(v) => {
            for (e, ps) in v {
                if !g.e.contains(&e) {
                    return Err(format!("properties of edge {} which AllE does not list", en(&e)));
                }
                for (n, x) in ps {
                    if g.ep.insert((e, n), x).is_some() {
                        return Err(format!("property ({}).{} is listed twice", en(&e), sym_name(n)));
                    }
                }
            }
        }
        o => return Err(format!("AllE.properties gave {o:?}")),
    }
    for n in &u.names {
        match exec(db, &Op::Get(Q::VPres(*n))) {
            Res::Outs(_) => {
                g.idx.insert(*n);
            }
            Res::Err(ErrK::NotIndexed, _) => {}
            r => return Err(format!("{:?} gave {r:?}", Q::VPres(*n))),
        }
    }
    Ok(g)
}

pub const A_STRUCT: u32 = 1;
pub const A_INDEX: u32 = 2;

/// The queries that together look at the graph from every side.
pub fn audit_queries(g: &Graph, u: &Uni, what: u32) -> Vec<Q> {
    let mut qs = Vec::new();
    let b = Box::new;
    if what & A_STRUCT != 0 {
        qs.push(Q::Count(b(Q::AllV)));
        qs.push(Q::Count(b(Q::AllE)));
        qs.push(Q::RangeV { limit: u32::MAX, t: None, start: None });
        for t in &u.types {
            qs.push(Q::RangeV { limit: u32::MAX, t: Some(*t), start: None });
        }
        for i in &u.ids {
            qs.push(Q::RangeV { limit: 2, t: None, start: Some(*i) });
        }
        let mut ids = u.ids.clone();
        ids.extend(g.v.keys().filter(|k| !u.ids.contains(k)));
        qs.push(Q::SpecV(ids.clone()));
        for i in &ids {
            for out in [true, false] {
                qs.push(Q::Pipe { inner: b(Q::SpecV(vec![*i])), out, limit: u32::MAX, t: None });
            }
        }
        for t in &u.etypes {
            for out in [true, false] {
                qs.push(Q::Pipe { inner: b(Q::AllV), out, limit: u32::MAX, t: Some(*t) });
            }
        }
        for out in [true, false] {
            qs.push(Q::Pipe { inner: b(Q::AllE), out, limit: u32::MAX, t: None });
            qs.push(Q::Count(b(Q::Pipe { inner: b(Q::AllV), out, limit: u32::MAX, t: None })));
        }
        let es: Vec<Ed> = g.e.iter().cloned().collect();
        qs.push(Q::SpecE(es));
        let some: Vec<Ed> = u
            .ids
            .iter()
            .flat_map(|a| u.ids.iter().map(move |c| (*a, *c)))
            .flat_map(|(a, c)| u.etypes.iter().map(move |t| (a, *t, c)))
            .filter(|e| !g.e.contains(e))
            .take(80)
            .collect();
        qs.push(Q::SpecE(some));
        qs.push(Q::Props { inner: b(Q::SpecV(ids)), name: None });
        for n in &u.names {
            qs.push(Q::Props { inner: b(Q::AllV), name: Some(*n) });
            qs.push(Q::Props { inner: b(Q::AllE), name: Some(*n) });
        }
    }
    if what & A_INDEX != 0 {
        for n in &u.names {
            qs.push(Q::VPres(*n));
            qs.push(Q::EPres(*n));
            if !g.idx.contains(n) {
                continue;
            }
            for exists in [true, false] {
                qs.push(Q::PPres { inner: b(Q::AllV), name: *n, exists });
                qs.push(Q::PPres { inner: b(Q::AllE), name: *n, exists });
            }
            for x in &u.vals {
                qs.push(Q::VVal(*n, x.clone()));
                qs.push(Q::EVal(*n, x.clone()));
                for equal in [true, false] {
                    qs.push(Q::PVal { inner: b(Q::AllV), name: *n, val: x.clone(), equal });
                    qs.push(Q::PVal { inner: b(Q::AllE), name: *n, val: x.clone(), equal });
                }
            }
        }
    }
    qs
}

/// Every view of the database agrees with `g`.
pub fn audit(db: &Db, g: &Graph, u: &Uni, what: u32) -> Result<(), String> {
    hstat(h::AUDITS, 1);
    for q in audit_queries(g, u, what) {
        let op = Op::Get(q);
        let r = exec(db, &op);
        if let Op::Get(q) = &op {
            if let Err(m) = g.check_query(q, &r) {
                return Err(format!("{q:?}: {m}"));
            }
        }
    }
    Ok(())
}

/// Re-creates everything that is not there and expects it to be bare; then
/// checks all views again. Changes the database.
pub fn resurrect(db: &Db, g: &Graph, u: &Uni, what: u32) -> Result<(), String> {
    let mut g = g.clone();
    let call = |g: &mut Graph, op: Op| -> Result<(), String> {
        let r = exec(db, &op);
        g.apply(&op, &r).map_err(|m| format!("{op:?}: {m}"))
    };
    for i in &u.ids {
        if !g.v.contains_key(i) {
            call(&mut g, Op::CreateV(*i, u.types[0]))?;
        }
    }
    audit(db, &g, u, what).map_err(|m| format!("after re-creating the vertices: {m}"))?;
    let mut n = 0;
    for a in &u.ids {
        for c in &u.ids {
            for t in &u.etypes {
                if !g.e.contains(&(*a, *t, *c)) && n < 60 {
                    n += 1;
                    call(&mut g, Op::CreateE((*a, *t, *c)))?;
                }
            }
        }
    }
    // Setting and deleting a property on everything must leave nothing.
    for nm in &u.names {
        if g.idx.contains(nm) {
            call(&mut g, Op::SetP(Q::AllV, *nm, u.vals[0].clone()))?;
            call(&mut g, Op::SetP(Q::AllE, *nm, u.vals[u.vals.len() - 1].clone()))?;
        }
    }
    audit(db, &g, u, what).map_err(|m| format!("after re-creating the edges: {m}"))?;
    let ids = u.ids.clone();
    call(&mut g, Op::Delete(Q::SpecV(ids)))?;
    audit(db, &g, u, what).map_err(|m| format!("after deleting all vertices: {m}"))
}
