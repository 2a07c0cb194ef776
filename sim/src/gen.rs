//! Workloads: universes, queries and calls drawn from a seed.
use crate::exec::Uni;
use crate::model::*;
use crate::rt::Rng;
use serde_json::json;
use std::collections::BTreeSet;

pub fn value_pool() -> Vec<serde_json::Value> {
    vec![
        json!(0),
        json!(1),
        json!("a"),
        json!(""),
        json!(null),
        json!(true),
        json!([1, [2], 3]),
        json!([1, [2, 3]]),
        json!([[1, 2], 3]),
        json!(-1),
        json!(18446744073709551615u64),
        json!({"a": 1, "b": [null, {"c": "d"}]}),
        json!({"a": 1, "b": [null, {"c": "e"}]}),
        json!({"a": [], "b": 1}),
        json!({}),
        json!([]),
        json!([[]]),
        json!(0.5),
        json!(-9007199254740993i64),
        json!("\u{0}\u{1F600}\"\\"),
        json!("0"),
        json!(false),
        json!(["a", "b"]),
        json!(["ab"]),
    ]
}

#[derive(Clone, Copy, Default)]
pub struct UniOpts {
    pub max_ids: usize,
    pub max_names: usize,
    pub big_values: bool,
}

pub fn universe(r: &mut Rng, o: UniOpts) -> Uni {
    let n = r.range(2, o.max_ids.max(2));
    let mut pool: Vec<Vid> = vec![
        0,
        1,
        2,
        u128::MAX,
        u128::MAX - 1,
        0xff,
        0x100,
        1 << 64,
        (1 << 64) - 1,
        u128::MAX << 64,
        0x6161_6161_6161_6161_6161_6161_6161_6161,
        u128::MAX - 0xff,
    ];
    for _ in 0..3 {
        pool.push(((r.next() as u128) << 64) | r.next() as u128);
    }
    let mut ids = BTreeSet::new();
    while ids.len() < n {
        ids.insert(*r.pick(&pool));
    }
    let long = "x".repeat(255);
    let tp = ["t", "ta", "T-1_", "a", "tt", long.as_str()];
    let pick_syms = |r: &mut Rng, n: usize, p: &[&str]| {
        let mut v: Vec<Sym> = Vec::new();
        while v.len() < n {
            let k = if r.pct(85) { r.below(p.len() - 1) } else { p.len() - 1 };
            let s = sym(p[k]);
            if !v.contains(&s) {
                v.push(s);
            }
        }
        v
    };
    let (a, b) = (r.range(1, 3), r.range(1, 3));
    let types = pick_syms(r, a, &tp);
    let etypes = pick_syms(r, b, &["e", "ea", "t", "E", "ee", "e-_9"]);
    let c = r.range(1, o.max_names.max(1));
    let names = pick_syms(r, c, &["p", "pa", "q", "t", "n-_", "pp", long.as_str()]);
    let mut vp = value_pool();
    if o.big_values {
        vp.push(json!("z".repeat(5000)));
        vp.push(json!("y".repeat(70000)));
    }
    let mut vals: Vec<Val> = Vec::new();
    // Values whose encodings are close together are drawn together.
    if r.pct(40) {
        let g: &[usize] = *r.pick(&[&[6usize, 7, 8][..], &[9, 10][..], &[11, 12, 13][..], &[14, 15, 16][..], &[22, 23][..], &[0, 20, 21][..]]);
        for i in g {
            vals.push(val(&vp[*i]));
        }
    }
    let nv = r.range(2, 5);
    while vals.len() < nv {
        let v = val(r.pick(&vp));
        if !vals.contains(&v) {
            vals.push(v);
        }
    }
    Uni { ids: ids.into_iter().collect(), types, etypes, names, vals }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    V,
    E,
    P,
    C,
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub u: &'a Uni,
    /// Only queries on properties in here succeed; others are drawn rarely.
    pub indexed: Vec<Sym>,
    /// Queries whose value is not determined by the graph are allowed.
    pub limits: bool,
    pub max_bulk: usize,
}

impl<'a> Gen<'a> {
    pub fn vid(&mut self) -> Vid {
        *self.r.pick(&self.u.ids)
    }
    pub fn edge(&mut self) -> Ed {
        (self.vid(), *self.r.pick(&self.u.etypes), self.vid())
    }
    pub fn name(&mut self) -> Sym {
        if !self.indexed.is_empty() && self.r.pct(75) {
            *self.r.pick(&self.indexed)
        } else {
            *self.r.pick(&self.u.names)
        }
    }
    /// A name to query by: nearly always one that is indexed.
    pub fn iname(&mut self) -> Sym {
        if !self.indexed.is_empty() && self.r.pct(93) {
            *self.r.pick(&self.indexed)
        } else {
            *self.r.pick(&self.u.names)
        }
    }
    pub fn val(&mut self) -> Val {
        self.r.pick(&self.u.vals).clone()
    }
    fn limit(&mut self) -> u32 {
        if self.limits && self.r.pct(30) { self.r.below(4) as u32 } else { u32::MAX }
    }
    fn vids(&mut self) -> Vec<Vid> {
        let n = self.r.range(1, 3);
        let mut s = BTreeSet::new();
        for _ in 0..n {
            s.insert(self.vid());
        }
        let mut v: Vec<_> = s.into_iter().collect();
        if self.r.pct(50) {
            v.reverse();
        }
        v
    }
    fn edges(&mut self) -> Vec<Ed> {
        let n = self.r.range(1, 3);
        let mut s = BTreeSet::new();
        for _ in 0..n {
            s.insert(self.edge());
        }
        s.into_iter().collect()
    }
    fn base_v(&mut self) -> Q {
        match self.r.weighted(&[20, 20, 30, 15, 15]) {
            0 => Q::AllV,
            1 => Q::RangeV {
                limit: if self.r.pct(60) { self.r.below(5) as u32 } else { u32::MAX },
                t: if self.r.pct(40) { Some(*self.r.pick(&self.u.types)) } else { None },
                start: if self.r.pct(60) { Some(self.vid()) } else { None },
            },
            2 => Q::SpecV(self.vids()),
            3 => Q::VPres(self.iname()),
            _ => Q::VVal(self.iname(), self.val()),
        }
    }
    fn base_e(&mut self) -> Q {
        match self.r.weighted(&[30, 35, 17, 18]) {
            0 => Q::AllE,
            1 => Q::SpecE(self.edges()),
            2 => Q::EPres(self.iname()),
            _ => Q::EVal(self.iname(), self.val()),
        }
    }
    /// A query yielding the given kind, with up to `depth` steps.
    pub fn query(&mut self, k: Kind, depth: usize) -> Q {
        let b = Box::new;
        let q = match k {
            Kind::C => {
                let k = *self.r.pick(&[Kind::V, Kind::E, Kind::P]);
                Q::Count(b(self.query(k, depth.saturating_sub(1))))
            }
            Kind::P => {
                let k = *self.r.pick(&[Kind::V, Kind::E]);
                let inner = b(self.query(k, depth.saturating_sub(1)));
                Q::Props { inner, name: if self.r.pct(50) { Some(*self.r.pick(&self.u.names)) } else { None } }
            }
            Kind::V | Kind::E => {
                if depth == 0 {
                    return if k == Kind::V { self.base_v() } else { self.base_e() };
                }
                match self.r.weighted(&[30, 40, 15, 15]) {
                    0 => {
                        if k == Kind::V {
                            self.base_v()
                        } else {
                            self.base_e()
                        }
                    }
                    1 => {
                        let other = if k == Kind::V { Kind::E } else { Kind::V };
                        let inner = b(self.query(other, depth - 1));
                        let t = if self.r.pct(40) {
                            Some(if k == Kind::V { *self.r.pick(&self.u.types) } else { *self.r.pick(&self.u.etypes) })
                        } else {
                            None
                        };
                        Q::Pipe { inner, out: self.r.pct(50), limit: self.limit(), t }
                    }
                    2 => {
                        let inner = b(self.query(k, depth - 1));
                        Q::PPres { inner, name: self.iname(), exists: self.r.pct(50) }
                    }
                    _ => {
                        let inner = b(self.query(k, depth - 1));
                        Q::PVal { inner, name: self.iname(), val: self.val(), equal: self.r.pct(50) }
                    }
                }
            }
        };
        if self.limits && k != Kind::C && self.r.pct(12) { Q::Include(b(q)) } else { q }
    }
    pub fn any_query(&mut self, depth: usize) -> Q {
        let k = *self.r.pick(&[Kind::V, Kind::E, Kind::V, Kind::E, Kind::P, Kind::C]);
        self.query(k, depth)
    }
    /// A query whose value the graph determines, for deleting or setting.
    pub fn det_query(&mut self, k: Kind, depth: usize) -> Q {
        let l = self.limits;
        self.limits = false;
        let q = self.query(k, depth);
        self.limits = l;
        q
    }
    /// A bulk insertion that refers to nothing that might be missing:
    /// edges and properties only of vertices inserted with it.
    pub fn bulk(&mut self, only_new_types: bool) -> Vec<Item> {
        let mut items = Vec::new();
        let n = match self.max_bulk {
            HUGE_BULK if self.r.pct(60) => self.r.range(200, HUGE_BULK),
            m => self.r.range(1, m.clamp(1, 12)),
        };
        let mut vs: Vec<Vid> = Vec::new();
        let mut es: Vec<Ed> = Vec::new();
        while items.len() < n {
            match if vs.is_empty() { 0 } else { self.r.weighted(&[30, 30, 25, if es.is_empty() { 0 } else { 20 }]) } {
                0 => {
                    let v = self.vid();
                    let t = if only_new_types { self.type_of(v) } else { *self.r.pick(&self.u.types) };
                    items.push(Item::V(v, t));
                    vs.push(v);
                }
                1 => {
                    let e = (*self.r.pick(&vs), *self.r.pick(&self.u.etypes), *self.r.pick(&vs));
                    items.push(Item::E(e));
                    es.push(e);
                }
                2 => {
                    let it = Item::VP(*self.r.pick(&vs), self.name(), self.val());
                    items.push(it);
                }
                _ => {
                    let it = Item::EP(*self.r.pick(&es), self.name(), self.val());
                    items.push(it);
                }
            }
        }
        items
    }
    /// A type that depends on the vertex only, so that no call re-types it.
    pub fn type_of(&self, v: Vid) -> Sym {
        self.u.types[(v as usize ^ (v >> 64) as usize) % self.u.types.len()]
    }
}

const HUGE_BULK: usize = 1500;
/// The size of bulk inserts in a run: few have large ones.
pub fn bulk_cap(r: &mut Rng, small: usize) -> usize {
    if r.pct(7) {
        HUGE_BULK
    } else {
        small
    }
}

/// How often each kind of call is drawn.
#[derive(Clone, Copy)]
pub struct Mix {
    pub createv: usize,
    pub createt: usize,
    pub createe: usize,
    pub get: usize,
    pub delv: usize,
    pub dele: usize,
    pub delp: usize,
    pub setp: usize,
    pub bulk: usize,
    pub index: usize,
    pub sync: usize,
    pub odd: usize,
}
pub const MIXES: &[Mix] = &[
    Mix { createv: 16, createt: 0, createe: 20, get: 20, delv: 8, dele: 8, delp: 5, setp: 14, bulk: 10, index: 3, sync: 0, odd: 1 },
    Mix { createv: 25, createt: 0, createe: 30, get: 12, delv: 18, dele: 8, delp: 1, setp: 4, bulk: 4, index: 1, sync: 0, odd: 0 },
    Mix { createv: 8, createt: 0, createe: 10, get: 25, delv: 5, dele: 4, delp: 10, setp: 30, bulk: 10, index: 5, sync: 0, odd: 1 },
    Mix { createv: 20, createt: 5, createe: 20, get: 25, delv: 8, dele: 5, delp: 3, setp: 10, bulk: 25, index: 3, sync: 0, odd: 1 },
];

/// Mostly queries.
pub const READ_MIX: Mix = Mix { createv: 2, createt: 0, createe: 3, get: 85, delv: 2, dele: 2, delp: 1, setp: 4, bulk: 1, index: 0, sync: 0, odd: 0 };

pub const CONC_MIXES: &[Mix] = &[
    Mix { createv: 20, createt: 0, createe: 25, get: 10, delv: 15, dele: 8, delp: 4, setp: 14, bulk: 8, index: 3, sync: 0, odd: 0 },
    Mix { createv: 25, createt: 0, createe: 30, get: 5, delv: 25, dele: 5, delp: 0, setp: 5, bulk: 5, index: 0, sync: 0, odd: 0 },
    Mix { createv: 8, createt: 0, createe: 8, get: 8, delv: 6, dele: 4, delp: 12, setp: 40, bulk: 10, index: 6, sync: 0, odd: 0 },
    Mix { createv: 15, createt: 2, createe: 15, get: 10, delv: 10, dele: 5, delp: 3, setp: 10, bulk: 30, index: 3, sync: 0, odd: 0 },
];

/// Properties set and deleted while the index that holds them is being built.
pub const INDEX_MIX: Mix = Mix { createv: 6, createt: 0, createe: 4, get: 4, delv: 6, dele: 3, delp: 12, setp: 45, bulk: 10, index: 25, sync: 0, odd: 0 };

/// Everybody is after the same property.
pub const HOT_MIX: Mix = Mix { createv: 5, createt: 0, createe: 4, get: 6, delv: 6, dele: 4, delp: 28, setp: 40, bulk: 5, index: 0, sync: 0, odd: 0 };
pub fn hot(u: &mut Uni) {
    u.ids.truncate(2);
    u.names.truncate(1);
    u.etypes.truncate(1);
    u.vals.truncate(3);
}

/// One call on any database used by one caller at a time (or on the memory
/// datastore by any number).
pub fn any_op(g: &mut Gen, m: &Mix) -> Op {
    match g.r.weighted(&[m.createv, m.createt, m.createe, m.get, m.delv, m.dele, m.delp, m.setp, m.bulk, m.index, m.sync, m.odd]) {
        0 => Op::CreateV(g.vid(), *g.r.pick(&g.u.types)),
        1 => Op::CreateVT(*g.r.pick(&g.u.types)),
        2 => Op::CreateE(g.edge()),
        3 => {
            let d = g.r.range(0, 4);
            Op::Get(g.any_query(d))
        }
        4 => {
            let d = if g.r.pct(60) { 0 } else { g.r.range(0, 2) };
            Op::Delete(if g.r.pct(60) { Q::SpecV(vec![g.vid()]) } else { g.det_query(Kind::V, d) })
        }
        5 => {
            let d = g.r.range(0, 2);
            Op::Delete(if g.r.pct(40) { Q::SpecE(vec![g.edge()]) } else { g.det_query(Kind::E, d) })
        }
        6 => {
            let d = g.r.range(1, 3);
            Op::Delete(g.det_query(Kind::P, d))
        }
        7 => {
            let d = g.r.range(0, 2);
            let k = *g.r.pick(&[Kind::V, Kind::E]);
            let q = match (g.r.pct(50), k) {
                (true, Kind::V) => Q::SpecV(vec![g.vid()]),
                (true, _) => Q::SpecE(vec![g.edge()]),
                _ => g.det_query(k, d),
            };
            Op::SetP(q, g.name(), g.val())
        }
        8 => Op::Bulk(g.bulk(false)),
        9 => Op::Index(*g.r.pick(&g.u.names)),
        10 => Op::Sync,
        _ => {
            // Calls that must be refused.
            let q = g.det_query(Kind::C, 2);
            if g.r.pct(50) {
                Op::Delete(q)
            } else {
                let q = if g.r.pct(50) { q } else { g.det_query(Kind::P, 1) };
                Op::SetP(q, g.name(), g.val())
            }
        }
    }
}

/// One call on a database that several callers write to at once and whose
/// queries are not isolated (RocksDB): everything it reads is one lookup, or
/// is derived from keys given in the call.
pub fn narrow_op(g: &mut Gen, m: &Mix) -> Op {
    match g.r.weighted(&[m.createv, m.createt, m.createe, m.get, m.delv, m.dele, m.delp, m.setp, m.bulk, m.index]) {
        0 => {
            let v = g.vid();
            Op::CreateV(v, g.type_of(v))
        }
        1 => Op::CreateVT(*g.r.pick(&g.u.types)),
        2 => Op::CreateE(g.edge()),
        3 => {
            let v = g.vid();
            let e = g.edge();
            match g.r.weighted(&[4, 4, 1, 1]) {
                0 => Op::Get(Q::SpecV(vec![v])),
                1 => Op::Get(Q::SpecE(vec![e])),
                2 => Op::Get(Q::Count(Box::new(Q::SpecV(vec![v])))),
                _ => Op::Get(Q::RangeV { limit: 1, t: None, start: Some(v) }),
            }
        }
        4 => Op::Delete(Q::SpecV(vec![g.vid()])),
        5 => Op::Delete(Q::SpecE(vec![g.edge()])),
        6 => {
            let n = g.name();
            if g.r.pct(60) {
                Op::Delete(Q::Props { inner: Box::new(Q::SpecV(vec![g.vid()])), name: Some(n) })
            } else {
                Op::Delete(Q::Props { inner: Box::new(Q::SpecE(vec![g.edge()])), name: Some(n) })
            }
        }
        7 => {
            let (n, x) = (g.name(), g.val());
            if g.r.pct(60) {
                Op::SetP(Q::SpecV(vec![g.vid()]), n, x)
            } else {
                Op::SetP(Q::SpecE(vec![g.edge()]), n, x)
            }
        }
        8 => Op::Bulk(g.bulk(true)),
        _ => Op::Index(*g.r.pick(&g.u.names)),
    }
}
