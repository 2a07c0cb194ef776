//! The reference graph: a small executable specification of every call.
use crate::rt::*;
use indradb::{Edge, EdgeDirection, Identifier, Json, Query, QueryOutputValue, Vertex};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::sync::Arc;
use uuid::Uuid;

pub type Vid = u128;
/// A type or property name: an index into the table of known names.
pub type Sym = u16;
/// A JSON value in its canonical text.
pub type Val = Arc<str>;
pub type Ed = (Vid, Sym, Vid);

static SYMS: std::sync::Mutex<Vec<(String, Option<Identifier>)>> = std::sync::Mutex::new(Vec::new());
pub fn sym(s: &str) -> Sym {
    unsafe { sim_nopoint(1) };
    let mut t = SYMS.lock().unwrap();
    let r = if let Some(i) = t.iter().position(|x| x.0 == s) {
        i as Sym
    } else {
        t.push((s.to_string(), Identifier::new(s.to_string()).ok()));
        (t.len() - 1) as Sym
    };
    drop(t);
    unsafe { sim_nopoint(-1) };
    r
}
pub fn sym_name(s: Sym) -> String {
    unsafe { sim_nopoint(1) };
    let r = SYMS.lock().unwrap()[s as usize].0.clone();
    unsafe { sim_nopoint(-1) };
    if r.len() > 24 { format!("{}..{}", &r[..4], r.len()) } else { r }
}
pub fn ident(s: Sym) -> Identifier {
    unsafe { sim_nopoint(1) };
    let r = SYMS.lock().unwrap()[s as usize].1.unwrap_or_default();
    unsafe { sim_nopoint(-1) };
    r
}
pub fn val(v: &serde_json::Value) -> Val {
    Arc::from(serde_json::to_string(v).unwrap().as_str())
}
pub fn json(v: &Val) -> Json {
    // serde_json reads some numbers inexactly.
    if v.contains('.') {
        if let Ok(x) = v.parse::<f64>() {
            return Json::new(x.into());
        }
    }
    Json::new(serde_json::from_str(v).unwrap())
}
pub fn uuid(v: Vid) -> Uuid {
    Uuid::from_u128(v)
}
pub fn edge(e: &Ed) -> Edge {
    Edge::new(uuid(e.0), ident(e.1), uuid(e.2))
}
pub fn ed(e: &Edge) -> Ed {
    (e.outbound_id.as_u128(), sym(e.t.as_str()), e.inbound_id.as_u128())
}

#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub enum Q {
    AllV,
    RangeV { limit: u32, t: Option<Sym>, start: Option<Vid> },
    SpecV(Vec<Vid>),
    VPres(Sym),
    VVal(Sym, Val),
    AllE,
    SpecE(Vec<Ed>),
    EPres(Sym),
    EVal(Sym, Val),
    Pipe { inner: Box<Q>, out: bool, limit: u32, t: Option<Sym> },
    Props { inner: Box<Q>, name: Option<Sym> },
    PPres { inner: Box<Q>, name: Sym, exists: bool },
    PVal { inner: Box<Q>, name: Sym, val: Val, equal: bool },
    Include(Box<Q>),
    Count(Box<Q>),
}

pub fn vn(v: Vid) -> String {
    let s = format!("{:x}", v);
    if s.len() <= 6 { format!("v{s}") } else { format!("v{}..{}", &s[..4], &s[s.len() - 4..]) }
}
pub fn en(e: &Ed) -> String {
    format!("{}-{}->{}", vn(e.0), sym_name(e.1), vn(e.2))
}
fn lim(l: u32) -> String {
    if l == u32::MAX { String::new() } else { format!(" limit {l}") }
}
fn ty(t: &Option<Sym>) -> String {
    t.map(|t| format!(" t={}", sym_name(t))).unwrap_or_default()
}
impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Q::AllV => write!(f, "AllV"),
            Q::RangeV { limit, t, start } => write!(f, "RangeV({}{}{})", start.map(vn).unwrap_or_default(), ty(t), lim(*limit)),
            Q::SpecV(v) => write!(f, "SpecV({})", v.iter().map(|x| vn(*x)).collect::<Vec<_>>().join(",")),
            Q::VPres(n) => write!(f, "VPres({})", sym_name(*n)),
            Q::VVal(n, v) => write!(f, "VVal({}={})", sym_name(*n), short(v)),
            Q::AllE => write!(f, "AllE"),
            Q::SpecE(v) => write!(f, "SpecE({})", v.iter().map(en).collect::<Vec<_>>().join(",")),
            Q::EPres(n) => write!(f, "EPres({})", sym_name(*n)),
            Q::EVal(n, v) => write!(f, "EVal({}={})", sym_name(*n), short(v)),
            Q::Pipe { inner, out, limit, t } => write!(f, "{inner:?}.{}({}{})", if *out { "outbound" } else { "inbound" }, ty(t), lim(*limit)),
            Q::Props { inner, name } => write!(f, "{inner:?}.properties({})", name.map(sym_name).unwrap_or_default()),
            Q::PPres { inner, name, exists } => write!(f, "{inner:?}.{}({})", if *exists { "with" } else { "without" }, sym_name(*name)),
            Q::PVal { inner, name, val, equal } => write!(f, "{inner:?}.with({}{}{})", sym_name(*name), if *equal { "==" } else { "!=" }, short(val)),
            Q::Include(q) => write!(f, "{q:?}.include()"),
            Q::Count(q) => write!(f, "{q:?}.count()"),
        }
    }
}
pub fn short(v: &Val) -> String {
    if v.len() > 60 { format!("{}..({} bytes)", &v.chars().take(40).collect::<String>(), v.len()) } else { v.to_string() }
}
impl Q {
    pub fn to_indra(&self) -> Query {
        use indradb::*;
        let b = |q: &Q| Box::new(q.to_indra());
        match self {
            Q::AllV => AllVertexQuery.into(),
            Q::RangeV { limit, t, start } => {
                let mut q = RangeVertexQuery::new();
                if *limit != u32::MAX {
                    q = q.limit(*limit);
                }
                if let Some(t) = t {
                    q = q.t(ident(*t));
                }
                if let Some(s) = start {
                    q = q.start_id(uuid(*s));
                }
                q.into()
            }
            Q::SpecV(v) => SpecificVertexQuery::new(v.iter().map(|x| uuid(*x)).collect()).into(),
            Q::VPres(n) => VertexWithPropertyPresenceQuery::new(ident(*n)).into(),
            Q::VVal(n, v) => VertexWithPropertyValueQuery::new(ident(*n), json(v)).into(),
            Q::AllE => AllEdgeQuery.into(),
            Q::SpecE(v) => SpecificEdgeQuery::new(v.iter().map(edge).collect()).into(),
            Q::EPres(n) => EdgeWithPropertyPresenceQuery::new(ident(*n)).into(),
            Q::EVal(n, v) => EdgeWithPropertyValueQuery::new(ident(*n), json(v)).into(),
            Q::Pipe { inner, out, limit, t } => {
                let d = if *out { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
                let mut q = PipeQuery::new(b(inner), d).unwrap();
                if *limit != u32::MAX {
                    q = q.limit(*limit);
                }
                if let Some(t) = t {
                    q = q.t(ident(*t));
                }
                q.into()
            }
            Q::Props { inner, name } => {
                let mut q = PipePropertyQuery::new(b(inner)).unwrap();
                if let Some(n) = name {
                    q = q.name(ident(*n));
                }
                q.into()
            }
            Q::PPres { inner, name, exists } => PipeWithPropertyPresenceQuery::new(b(inner), ident(*name), *exists).unwrap().into(),
            Q::PVal { inner, name, val, equal } => PipeWithPropertyValueQuery::new(b(inner), ident(*name), json(val), *equal).unwrap().into(),
            Q::Include(q) => IncludeQuery::new(b(q)).into(),
            Q::Count(q) => CountQuery::new(b(q)).unwrap().into(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    V(Vid, Sym),
    E(Ed),
    VP(Vid, Sym, Val),
    EP(Ed, Sym, Val),
}
#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub enum Op {
    CreateV(Vid, Sym),
    CreateVT(Sym),
    CreateE(Ed),
    Get(Q),
    Delete(Q),
    SetP(Q, Sym, Val),
    Bulk(Vec<Item>),
    Index(Sym),
    Sync,
    /// Executes the plugin of this name.
    Plug(Sym, Vec<Step>),
}
/// What the test plugin can be told to do.
#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub enum Step {
    CV(Vid, Sym),
    CE(Ed),
    SetVP(Vid, Sym, Val),
    SetEP(Ed, Sym, Val),
    DelV(Vid),
    DelE(Ed),
    DelVP(Vid, Sym),
    Index(Sym),
    CountV,
    CountE,
    Type(Vid),
    All,
    VP(Vid, Sym),
    Inc(Vid, Sym),
    /// Visits all vertices in parallel; the mapper fails (1) or panics (2) at
    /// the n-th (counted from 1).
    Map(u64, u64),
    /// In microseconds.
    Sleep(u64),
    Fail,
    Panic,
}
impl Step {
    pub fn json(&self) -> serde_json::Value {
        use serde_json::json;
        let e = |e: &Ed| json!([format!("{:x}", e.0), ident(e.1).as_str(), format!("{:x}", e.2)]);
        let v = |v: &Vid| format!("{v:x}");
        let x = |x: &Val| serde_json::from_str::<serde_json::Value>(x).unwrap();
        match self {
            Step::CV(i, t) => json!(["cv", v(i), ident(*t).as_str()]),
            Step::CE(d) => json!(["ce", e(d)]),
            Step::SetVP(i, n, y) => json!(["svp", v(i), ident(*n).as_str(), x(y)]),
            Step::SetEP(d, n, y) => json!(["sep", e(d), ident(*n).as_str(), x(y)]),
            Step::DelV(i) => json!(["dv", v(i)]),
            Step::DelE(d) => json!(["de", e(d)]),
            Step::DelVP(i, n) => json!(["dvp", v(i), ident(*n).as_str()]),
            Step::Index(n) => json!(["idx", ident(*n).as_str()]),
            Step::CountV => json!(["vc"]),
            Step::CountE => json!(["ec"]),
            Step::Type(i) => json!(["sv", v(i)]),
            Step::All => json!(["av"]),
            Step::VP(i, n) => json!(["vp", v(i), ident(*n).as_str()]),
            Step::Inc(i, n) => json!(["inc", v(i), ident(*n).as_str()]),
            Step::Map(at, how) => json!(["map", at, how]),
            Step::Sleep(us) => json!(["sleep", us]),
            Step::Fail => json!(["fail"]),
            Step::Panic => json!(["panic"]),
        }
    }
}
impl fmt::Debug for Step {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", short(&val(&self.json())))
    }
}
/// The argument of a plugin call.
pub fn plug_arg(name: &str, steps: &[Step]) -> serde_json::Value {
    match name {
        "hello_world" => steps.first().map(|s| s.json()).unwrap_or_default(),
        _ => steps.iter().map(|s| s.json()).collect(),
    }
}
impl Op {
    pub fn is_read(&self) -> bool {
        matches!(self, Op::Get(_) | Op::Sync)
    }
}
impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Op::CreateV(v, t) => write!(f, "create_vertex({}:{})", vn(*v), sym_name(*t)),
            Op::CreateVT(t) => write!(f, "create_vertex_from_type({})", sym_name(*t)),
            Op::CreateE(e) => write!(f, "create_edge({})", en(e)),
            Op::Get(q) => write!(f, "get({q:?})"),
            Op::Delete(q) => write!(f, "delete({q:?})"),
            Op::SetP(q, n, v) => write!(f, "set_properties({q:?}, {}={})", sym_name(*n), short(v)),
            Op::Bulk(v) => {
                let mut s: Vec<String> = v
                    .iter()
                    .take(12)
                    .map(|i| match i {
                        Item::V(v, t) => format!("{}:{}", vn(*v), sym_name(*t)),
                        Item::E(e) => en(e),
                        Item::VP(v, n, x) => format!("{}.{}={}", vn(*v), sym_name(*n), short(x)),
                        Item::EP(e, n, x) => format!("({}).{}={}", en(e), sym_name(*n), short(x)),
                    })
                    .collect();
                if v.len() > 12 {
                    s.push(format!("... {} items", v.len()));
                }
                write!(f, "bulk_insert({})", s.join(", "))
            }
            Op::Index(n) => write!(f, "index_property({})", sym_name(*n)),
            Op::Sync => write!(f, "sync()"),
            Op::Plug(n, v) => write!(f, "execute_plugin({}, {v:?})", sym_name(*n)),
        }
    }
}

#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub enum Out {
    V(Vec<(Vid, Sym)>),
    E(Vec<Ed>),
    VP(Vec<((Vid, Sym), Vec<(Sym, Val)>)>),
    EP(Vec<(Ed, Vec<(Sym, Val)>)>),
    C(u64),
}
impl fmt::Debug for Out {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fn cut(v: Vec<String>, n: usize) -> String {
            if v.len() < n { v.join(" ") } else { format!("{} ... ({n} items)", v.join(" ")) }
        }
        let pr = |p: &Vec<(Sym, Val)>| p.iter().map(|(n, v)| format!("{}={}", sym_name(*n), short(v))).collect::<Vec<_>>().join(",");
        match self {
            Out::V(v) => write!(f, "V[{}]", cut(v.iter().take(24).map(|x| format!("{}:{}", vn(x.0), sym_name(x.1))).collect(), v.len())),
            Out::E(v) => write!(f, "E[{}]", cut(v.iter().take(24).map(en).collect(), v.len())),
            Out::VP(v) => write!(f, "VP[{}]", cut(v.iter().take(24).map(|x| format!("{}{{{}}}", vn(x.0 .0), pr(&x.1))).collect(), v.len())),
            Out::EP(v) => write!(f, "EP[{}]", cut(v.iter().take(24).map(|x| format!("{}{{{}}}", en(&x.0), pr(&x.1))).collect(), v.len())),
            Out::C(n) => write!(f, "C[{n}]"),
        }
    }
}
impl Out {
    pub fn len(&self) -> usize {
        match self {
            Out::V(v) => v.len(),
            Out::E(v) => v.len(),
            Out::VP(v) => v.len(),
            Out::EP(v) => v.len(),
            Out::C(_) => 1,
        }
    }
    fn sorted(&self) -> Out {
        let mut o = self.clone();
        match &mut o {
            Out::V(v) => v.sort(),
            Out::E(v) => v.sort(),
            Out::VP(v) => {
                v.iter_mut().for_each(|x| x.1.sort());
                v.sort()
            }
            Out::EP(v) => {
                v.iter_mut().for_each(|x| x.1.sort());
                v.sort()
            }
            Out::C(_) => {}
        }
        o
    }
}
/// Equal as multisets.
pub fn same(a: &Out, b: &Out) -> bool {
    a == b || a.sorted() == b.sorted()
}
fn sub<T: Ord + Clone>(a: &[T], b: &[T]) -> bool {
    let mut m: BTreeMap<&T, i64> = BTreeMap::new();
    for x in b {
        *m.entry(x).or_default() += 1;
    }
    a.iter().all(|x| {
        let c = m.entry(x).or_default();
        *c -= 1;
        *c >= 0
    })
}
pub fn subset(a: &Out, b: &Out) -> bool {
    match (a.sorted(), b.sorted()) {
        (Out::V(a), Out::V(b)) => sub(&a, &b),
        (Out::E(a), Out::E(b)) => sub(&a, &b),
        (Out::VP(a), Out::VP(b)) => sub(&a, &b),
        (Out::EP(a), Out::EP(b)) => sub(&a, &b),
        (Out::C(a), Out::C(b)) => a <= b,
        _ => false,
    }
}
pub fn from_indra(o: &QueryOutputValue) -> Out {
    let np = |p: &Vec<indradb::NamedProperty>| p.iter().map(|p| (sym(p.name.as_str()), val(&p.value))).collect::<Vec<_>>();
    let vx = |v: &Vertex| (v.id.as_u128(), sym(v.t.as_str()));
    match o {
        QueryOutputValue::Vertices(v) => Out::V(v.iter().map(vx).collect()),
        QueryOutputValue::Edges(v) => Out::E(v.iter().map(ed).collect()),
        QueryOutputValue::VertexProperties(v) => Out::VP(v.iter().map(|x| (vx(&x.vertex), np(&x.props))).collect()),
        QueryOutputValue::EdgeProperties(v) => Out::EP(v.iter().map(|x| (ed(&x.edge), np(&x.props))).collect()),
        QueryOutputValue::Count(c) => Out::C(*c),
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ErrK {
    NotIndexed,
    OnQuery,
    UuidTaken,
    Unsupported,
    Other,
    /// Between client and server; the call may have happened or not.
    Net,
}
#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub enum Res {
    Unit,
    Bool(bool),
    Id(Vid),
    Outs(Vec<Out>),
    /// A plugin's result, as JSON.
    Json(Val),
    Err(ErrK, String),
    Panic(String),
}
impl fmt::Debug for Res {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Res::Unit => write!(f, "ok"),
            Res::Bool(b) => write!(f, "{b}"),
            Res::Id(v) => write!(f, "{}", uuid(*v)),
            Res::Outs(o) => write!(f, "{o:?}"),
            Res::Json(v) => write!(f, "{}", short(v)),
            Res::Err(k, m) => write!(f, "error {k:?} ({m})"),
            Res::Panic(m) => write!(f, "PANIC: {m}"),
        }
    }
}
impl Res {
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Err(..) | Res::Panic(_))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Default, Debug, Serialize, Deserialize)]
pub struct Graph {
    pub v: BTreeMap<Vid, Sym>,
    pub e: BTreeSet<Ed>,
    pub vp: BTreeMap<(Vid, Sym), Val>,
    pub ep: BTreeMap<(Ed, Sym), Val>,
    pub idx: BTreeSet<Sym>,
    /// A bulk insertion of a vertex that exists replaces its type (RocksDB)
    /// or keeps it (memory).
    pub bulk_overwrites: bool,
}

enum MV {
    Exact(Out),
    /// Exactly `n` of these, which ones is not specified.
    Some(Out, usize),
    /// Some of these.
    Upper(Out),
}
struct Cur<'a> {
    outs: &'a [Out],
    i: usize,
    /// The call failed: there are no outputs to compare with.
    none: bool,
}
pub enum Bad {
    NotIndexed,
    OnQuery,
    Mismatch(String),
}

impl Graph {
    pub fn diff(&self, o: &Graph) -> String {
        let mut s = Vec::new();
        for (k, t) in &self.v {
            match o.v.get(k) {
                None => s.push(format!("vertex {} missing", vn(*k))),
                Some(u) if u != t => s.push(format!("vertex {} has type {} instead of {}", vn(*k), sym_name(*u), sym_name(*t))),
                _ => {}
            }
        }
        for k in o.v.keys() {
            if !self.v.contains_key(k) {
                s.push(format!("vertex {} unexpected", vn(*k)));
            }
        }
        for k in self.e.difference(&o.e) {
            s.push(format!("edge {} missing", en(k)));
        }
        for k in o.e.difference(&self.e) {
            s.push(format!("edge {} unexpected", en(k)));
        }
        for (k, x) in &self.vp {
            match o.vp.get(k) {
                None => s.push(format!("property {}.{} missing", vn(k.0), sym_name(k.1))),
                Some(y) if x != y => s.push(format!("property {}.{} is {} instead of {}", vn(k.0), sym_name(k.1), short(y), short(x))),
                _ => {}
            }
        }
        for k in o.vp.keys() {
            if !self.vp.contains_key(k) {
                s.push(format!("property {}.{} unexpected", vn(k.0), sym_name(k.1)));
            }
        }
        for (k, x) in &self.ep {
            match o.ep.get(k) {
                None => s.push(format!("property ({}).{} missing", en(&k.0), sym_name(k.1))),
                Some(y) if x != y => s.push(format!("property ({}).{} is {} instead of {}", en(&k.0), sym_name(k.1), short(y), short(x))),
                _ => {}
            }
        }
        for k in o.ep.keys() {
            if !self.ep.contains_key(k) {
                s.push(format!("property ({}).{} unexpected", en(&k.0), sym_name(k.1)));
            }
        }
        for k in self.idx.difference(&o.idx) {
            s.push(format!("index on {} missing", sym_name(*k)));
        }
        for k in o.idx.difference(&self.idx) {
            s.push(format!("index on {} unexpected", sym_name(*k)));
        }
        if s.len() > 12 {
            let n = s.len();
            s.truncate(12);
            s.push(format!("... {n} differences"));
        }
        s.join("; ")
    }

    fn props_of_v(&self, v: Vid, name: Option<Sym>) -> Vec<(Sym, Val)> {
        match name {
            Some(n) => self.vp.get(&(v, n)).map(|x| vec![(n, x.clone())]).unwrap_or_default(),
            None => self.vp.range((v, 0)..=(v, Sym::MAX)).map(|(k, x)| (k.1, x.clone())).collect(),
        }
    }
    fn props_of_e(&self, e: Ed, name: Option<Sym>) -> Vec<(Sym, Val)> {
        match name {
            Some(n) => self.ep.get(&(e, n)).map(|x| vec![(n, x.clone())]).unwrap_or_default(),
            None => self.ep.range((e, 0)..=(e, Sym::MAX)).map(|(k, x)| (k.1, x.clone())).collect(),
        }
    }

    fn ev(&self, q: &Q, cur: &mut Cur) -> Result<MV, Bad> {
        let need_idx = |n: &Sym| if self.idx.contains(n) { Ok(()) } else { Err(Bad::NotIndexed) };
        Ok(match q {
            Q::AllV => MV::Exact(Out::V(self.v.iter().map(|(k, t)| (*k, *t)).collect())),
            Q::RangeV { limit, t, start } => MV::Exact(Out::V(
                self.v
                    .range(start.unwrap_or(0)..)
                    .filter(|(_, x)| t.map(|t| t == **x).unwrap_or(true))
                    .take(*limit as usize)
                    .map(|(k, t)| (*k, *t))
                    .collect(),
            )),
            Q::SpecV(ids) => MV::Exact(Out::V(ids.iter().filter_map(|i| self.v.get(i).map(|t| (*i, *t))).collect())),
            Q::VPres(n) => {
                need_idx(n)?;
                MV::Exact(Out::V(self.vp.keys().filter(|k| k.1 == *n).filter_map(|k| self.v.get(&k.0).map(|t| (k.0, *t))).collect()))
            }
            Q::VVal(n, x) => {
                need_idx(n)?;
                MV::Exact(Out::V(self.vp.iter().filter(|(k, y)| k.1 == *n && *y == x).filter_map(|(k, _)| self.v.get(&k.0).map(|t| (k.0, *t))).collect()))
            }
            Q::AllE => MV::Exact(Out::E(self.e.iter().cloned().collect())),
            Q::SpecE(es) => MV::Exact(Out::E(es.iter().filter(|e| self.e.contains(e)).cloned().collect())),
            Q::EPres(n) => {
                need_idx(n)?;
                MV::Exact(Out::E(self.ep.keys().filter(|k| k.1 == *n && self.e.contains(&k.0)).map(|k| k.0).collect()))
            }
            Q::EVal(n, x) => {
                need_idx(n)?;
                MV::Exact(Out::E(self.ep.iter().filter(|(k, y)| k.1 == *n && *y == x && self.e.contains(&k.0)).map(|(k, _)| k.0).collect()))
            }
            Q::Pipe { inner, out, limit, t } => {
                let (v, exact) = self.inner(inner, cur)?;
                let full = match v {
                    Out::V(vs) => {
                        let mut r = Vec::new();
                        for (id, _) in vs {
                            for e in self.e.iter() {
                                if (if *out { e.0 } else { e.2 }) == id && t.map(|t| t == e.1).unwrap_or(true) {
                                    r.push(*e);
                                }
                            }
                        }
                        Out::E(r)
                    }
                    Out::E(es) => Out::V(
                        es.iter()
                            .map(|e| if *out { e.0 } else { e.2 })
                            .filter_map(|i| self.v.get(&i).map(|t| (i, *t)))
                            .filter(|x| t.map(|t| t == x.1).unwrap_or(true))
                            .collect(),
                    ),
                    _ => return Err(Bad::OnQuery),
                };
                if !exact {
                    MV::Upper(full)
                } else if full.len() > *limit as usize {
                    MV::Some(full, *limit as usize)
                } else {
                    MV::Exact(full)
                }
            }
            Q::Props { inner, name } => {
                let (v, exact) = self.inner(inner, cur)?;
                let full = match v {
                    Out::V(vs) => Out::VP(vs.into_iter().map(|x| (x, self.props_of_v(x.0, *name))).filter(|x| !x.1.is_empty()).collect()),
                    Out::E(es) => Out::EP(es.into_iter().map(|x| (x, self.props_of_e(x, *name))).filter(|x| !x.1.is_empty()).collect()),
                    _ => return Err(Bad::OnQuery),
                };
                if exact { MV::Exact(full) } else { MV::Upper(full) }
            }
            Q::PPres { inner, name, exists } => {
                let (v, exact) = self.inner(inner, cur)?;
                let full = match v {
                    Out::V(vs) => {
                        need_idx(name)?;
                        Out::V(vs.into_iter().filter(|x| self.vp.contains_key(&(x.0, *name)) == *exists).collect())
                    }
                    Out::E(es) => {
                        need_idx(name)?;
                        Out::E(es.into_iter().filter(|x| self.ep.contains_key(&(*x, *name)) == *exists).collect())
                    }
                    _ => return Err(Bad::OnQuery),
                };
                if exact { MV::Exact(full) } else { MV::Upper(full) }
            }
            Q::PVal { inner, name, val, equal } => {
                let (v, exact) = self.inner(inner, cur)?;
                let full = match v {
                    Out::V(vs) => {
                        need_idx(name)?;
                        Out::V(vs.into_iter().filter(|x| (self.vp.get(&(x.0, *name)) == Some(val)) == *equal).collect())
                    }
                    Out::E(es) => {
                        need_idx(name)?;
                        Out::E(es.into_iter().filter(|x| (self.ep.get(&(*x, *name)) == Some(val)) == *equal).collect())
                    }
                    _ => return Err(Bad::OnQuery),
                };
                if exact { MV::Exact(full) } else { MV::Upper(full) }
            }
            Q::Include(inner) => self.ev(inner, cur)?,
            Q::Count(inner) => {
                let v = self.ev(inner, cur)?;
                let v = if matches!(**inner, Q::Include(_)) { self.emit(v, cur, inner)? } else { v };
                match v {
                    MV::Exact(o) => MV::Exact(Out::C(o.len() as u64)),
                    MV::Some(_, n) => MV::Exact(Out::C(n as u64)),
                    MV::Upper(o) => MV::Upper(Out::C(o.len() as u64)),
                }
            }
        })
    }
    /// Compares the next produced output with what the model allows, and
    /// continues with what was produced.
    fn emit(&self, v: MV, cur: &mut Cur, q: &Q) -> Result<MV, Bad> {
        if cur.none {
            return Ok(v);
        }
        if cur.i >= cur.outs.len() {
            return Err(Bad::Mismatch("an output is missing".into()));
        }
        let a = &cur.outs[cur.i];
        cur.i += 1;
        let ok = match &v {
            MV::Exact(o) => same(a, o),
            MV::Some(o, n) => a.len() == *n && subset(a, o),
            MV::Upper(o) => subset(a, o),
        };
        if !ok {
            let (w, o) = match &v {
                MV::Exact(o) => ("exactly".to_string(), o),
                MV::Some(o, n) => (format!("{n} of"), o),
                MV::Upper(o) => ("some of".to_string(), o),
            };
            return Err(Bad::Mismatch(format!("{q:?} gave {a:?}, expected {w} {o:?}")));
        }
        if let (Q::RangeV { .. }, Out::V(v)) = (q, a) {
            if v.windows(2).any(|w| w[0].0 >= w[1].0) {
                return Err(Bad::Mismatch(format!("{q:?} gave {a:?}, which is not in order")));
            }
        }
        Ok(MV::Exact(a.clone()))
    }
    fn inner(&self, q: &Q, cur: &mut Cur) -> Result<(Out, bool), Bad> {
        let mut v = self.ev(q, cur)?;
        if matches!(q, Q::Include(_)) {
            v = self.emit(v, cur, q)?;
        }
        Ok(match v {
            MV::Exact(o) => (o, true),
            MV::Some(o, _) => (o, false),
            MV::Upper(o) => (o, false),
        })
    }
    /// Checks the outcome of a query against this graph.
    pub fn check_query(&self, q: &Q, r: &Res) -> Result<(), String> {
        static EMPTY: Vec<Out> = Vec::new();
        let outs = match r {
            Res::Outs(o) => o,
            _ => &EMPTY,
        };
        let mut cur = Cur { outs, i: 0, none: !matches!(r, Res::Outs(_)) };
        let e = self.ev(q, &mut cur).and_then(|v| if matches!(r, Res::Outs(_)) { self.emit(v, &mut cur, q).map(|_| ()) } else { Ok(()) });
        match (e, r) {
            (Err(Bad::NotIndexed), Res::Err(ErrK::NotIndexed, _)) => Ok(()),
            (Err(Bad::OnQuery), Res::Err(ErrK::OnQuery, _)) => Ok(()),
            (Err(Bad::NotIndexed), _) => Err(format!("expected a not-indexed error, got {r:?}")),
            (Err(Bad::OnQuery), _) => Err(format!("expected a query type error, got {r:?}")),
            (Err(Bad::Mismatch(m)), Res::Outs(_)) => Err(m),
            (Ok(()), Res::Outs(_)) => {
                if cur.i != outs.len() {
                    Err(format!("{} outputs instead of {}", outs.len(), cur.i))
                } else {
                    Ok(())
                }
            }
            (_, r) => Err(format!("expected a result, got {r:?}")),
        }
    }
    /// The exact value of a query (used for mutations, where it must be
    /// determined).
    pub fn value(&self, q: &Q) -> Result<Out, ErrK> {
        // Produce included outputs on the fly: they are exact here.
        struct Never;
        let _ = Never;
        fn strip(q: &Q) -> Q {
            match q {
                Q::Include(i) => strip(i),
                Q::Pipe { inner, out, limit, t } => Q::Pipe { inner: Box::new(strip(inner)), out: *out, limit: *limit, t: *t },
                Q::Props { inner, name } => Q::Props { inner: Box::new(strip(inner)), name: *name },
                Q::PPres { inner, name, exists } => Q::PPres { inner: Box::new(strip(inner)), name: *name, exists: *exists },
                Q::PVal { inner, name, val, equal } => Q::PVal { inner: Box::new(strip(inner)), name: *name, val: val.clone(), equal: *equal },
                Q::Count(i) => Q::Count(Box::new(strip(i))),
                o => o.clone(),
            }
        }
        match self.ev(&strip(q), &mut Cur { outs: &[], i: 0, none: true }) {
            Ok(MV::Exact(o)) => Ok(o),
            Ok(_) => harness_undetermined(q),
            Err(Bad::NotIndexed) => Err(ErrK::NotIndexed),
            Err(_) => Err(ErrK::OnQuery),
        }
    }
    pub fn remove_edge(&mut self, e: &Ed) {
        self.e.remove(e);
        let ks: Vec<_> = self.ep.range((*e, 0)..=(*e, Sym::MAX)).map(|(k, _)| *k).collect();
        for k in ks {
            self.ep.remove(&k);
        }
    }
    pub fn remove_vertex(&mut self, v: Vid) {
        self.v.remove(&v);
        let ks: Vec<_> = self.vp.range((v, 0)..=(v, Sym::MAX)).map(|(k, _)| *k).collect();
        for k in ks {
            self.vp.remove(&k);
        }
        let es: Vec<_> = self.e.iter().filter(|e| e.0 == v || e.2 == v).cloned().collect();
        for e in es {
            self.remove_edge(&e);
        }
    }
    /// Applies a call; returns what it should report.
    pub fn apply(&mut self, op: &Op, r: &Res) -> Result<(), String> {
        let want = |w: Res| {
            if *r == w {
                Ok(())
            } else {
                Err(format!("expected {w:?}, got {r:?}"))
            }
        };
        let want_err = |k: ErrK| match r {
            Res::Err(x, _) if *x == k => Ok(()),
            _ => Err(format!("expected error {k:?}, got {r:?}")),
        };
        match op {
            Op::CreateV(v, t) => {
                let new = !self.v.contains_key(v);
                want(Res::Bool(new))?;
                if new {
                    self.v.insert(*v, *t);
                }
                Ok(())
            }
            Op::CreateVT(t) => match r {
                Res::Id(v) => {
                    if self.v.contains_key(v) {
                        return Err(format!("identifier {} was already in use", uuid(*v)));
                    }
                    self.v.insert(*v, *t);
                    Ok(())
                }
                _ => Err(format!("expected a new identifier, got {r:?}")),
            },
            Op::CreateE(e) => {
                let ok = self.v.contains_key(&e.0) && self.v.contains_key(&e.2);
                want(Res::Bool(ok))?;
                if ok {
                    self.e.insert(*e);
                }
                Ok(())
            }
            Op::Get(q) => self.check_query(q, r),
            Op::Delete(q) => match self.value(q) {
                Err(k) => want_err(k),
                Ok(Out::V(v)) => {
                    want(Res::Unit)?;
                    for x in v {
                        self.remove_vertex(x.0);
                    }
                    Ok(())
                }
                Ok(Out::E(v)) => {
                    want(Res::Unit)?;
                    for x in v {
                        self.remove_edge(&x);
                    }
                    Ok(())
                }
                Ok(Out::VP(v)) => {
                    want(Res::Unit)?;
                    for (x, ps) in v {
                        for (n, _) in ps {
                            self.vp.remove(&(x.0, n));
                        }
                    }
                    Ok(())
                }
                Ok(Out::EP(v)) => {
                    want(Res::Unit)?;
                    for (x, ps) in v {
                        for (n, _) in ps {
                            self.ep.remove(&(x, n));
                        }
                    }
                    Ok(())
                }
                Ok(Out::C(_)) => want_err(ErrK::OnQuery),
            },
            Op::SetP(q, n, x) => match self.value(q) {
                Err(k) => want_err(k),
                Ok(Out::V(v)) => {
                    want(Res::Unit)?;
                    for y in v {
                        self.vp.insert((y.0, *n), x.clone());
                    }
                    Ok(())
                }
                Ok(Out::E(v)) => {
                    want(Res::Unit)?;
                    for y in v {
                        self.ep.insert((y, *n), x.clone());
                    }
                    Ok(())
                }
                Ok(_) => want_err(ErrK::OnQuery),
            },
            Op::Bulk(items) => {
                want(Res::Unit)?;
                for i in items {
                    match i {
                        Item::V(v, t) => {
                            if self.bulk_overwrites || !self.v.contains_key(v) {
                                self.v.insert(*v, *t);
                            }
                        }
                        Item::E(e) => {
                            // Only sound for edges between vertices that exist.
                            if self.bulk_overwrites || (self.v.contains_key(&e.0) && self.v.contains_key(&e.2)) {
                                self.e.insert(*e);
                            }
                        }
                        Item::VP(v, n, x) => {
                            self.vp.insert((*v, *n), x.clone());
                        }
                        Item::EP(e, n, x) => {
                            self.ep.insert((*e, *n), x.clone());
                        }
                    }
                }
                Ok(())
            }
            Op::Index(n) => {
                want(Res::Unit)?;
                self.idx.insert(*n);
                Ok(())
            }
            Op::Sync => match r {
                Res::Unit => Ok(()),
                _ => Err(format!("expected sync to succeed, got {r:?}")),
            },
            Op::Plug(name, steps) => {
                let name = sym_name(*name);
                let x = match name.as_str() {
                    "hello_world" => Some(val(&serde_json::json!(format!("hello, {}", plug_arg(&name, steps))))),
                    "naive_vertex_count" => Some(val(&self.v.len().into())),
                    "script" | "another" => self.script(steps),
                    _ => None,
                };
                match (x, r) {
                    (Some(x), Res::Json(y)) if x == *y => Ok(()),
                    (Some(x), _) => Err(format!("expected {}, got {r:?}", short(&x))),
                    // Whatever the error; that the server gave it is checked elsewhere.
                    (None, Res::Err(..)) => Ok(()),
                    (None, _) => Err(format!("expected an error, got {r:?}")),
                }
            }
        }
    }
    /// What the test plugin does; None if it fails, having done what came before.
    fn script(&mut self, steps: &[Step]) -> Option<Val> {
        use serde_json::{json, Value};
        let mut out = Vec::new();
        for s in steps {
            let is = |g: &Graph, v: &Vid| g.v.contains_key(v);
            out.push(match s {
                Step::CV(v, t) => {
                    let new = !is(self, v);
                    if new {
                        self.v.insert(*v, *t);
                    }
                    json!(new)
                }
                Step::CE(e) => {
                    let ok = is(self, &e.0) && is(self, &e.2);
                    if ok {
                        self.e.insert(*e);
                    }
                    json!(ok)
                }
                Step::SetVP(v, n, x) => {
                    let ok = is(self, v);
                    if ok {
                        self.vp.insert((*v, *n), x.clone());
                    }
                    json!(ok as u64)
                }
                Step::SetEP(e, n, x) => {
                    let ok = self.e.contains(e);
                    if ok {
                        self.ep.insert((*e, *n), x.clone());
                    }
                    json!(ok as u64)
                }
                Step::DelV(v) => {
                    let ok = is(self, v);
                    self.remove_vertex(*v);
                    json!(ok as u64)
                }
                Step::DelE(e) => {
                    let ok = self.e.contains(e);
                    self.remove_edge(e);
                    json!(ok as u64)
                }
                Step::DelVP(v, n) => {
                    self.vp.remove(&(*v, *n));
                    Value::Null
                }
                Step::Index(n) => {
                    self.idx.insert(*n);
                    Value::Null
                }
                Step::CountV => json!(self.v.len()),
                Step::CountE => json!(self.e.len()),
                Step::Type(v) => self.v.get(v).map(|t| json!(ident(*t).as_str())).unwrap_or_default(),
                Step::All => self.v.keys().map(|v| json!(format!("{v:x}"))).collect(),
                Step::VP(v, n) => match (is(self, v), self.vp.get(&(*v, *n))) {
                    (false, _) => Value::Null,
                    (_, None) => json!([]),
                    (_, Some(x)) => json!([serde_json::from_str::<Value>(x).unwrap()]),
                },
                Step::Inc(v, n) => {
                    if is(self, v) {
                        let k = self.vp.get(&(*v, *n)).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + 1;
                        self.vp.insert((*v, *n), val(&json!(k)));
                        json!(k)
                    } else {
                        Value::Null
                    }
                }
                Step::Map(at, how) => {
                    if *how != 0 && *at >= 1 && *at <= self.v.len() as u64 {
                        return None;
                    }
                    json!(self.v.len())
                }
                Step::Sleep(_) => Value::Null,
                Step::Fail | Step::Panic => return None,
            });
        }
        Some(val(&Value::Array(out)))
    }
    /// The graph's own consistency.
    pub fn consistent(&self) -> Result<(), String> {
        for e in &self.e {
            if !self.v.contains_key(&e.0) || !self.v.contains_key(&e.2) {
                return Err(format!("edge {} has a missing endpoint", en(e)));
            }
        }
        for k in self.vp.keys() {
            if !self.v.contains_key(&k.0) {
                return Err(format!("property {}.{} has no vertex", vn(k.0), sym_name(k.1)));
            }
        }
        for k in self.ep.keys() {
            if !self.e.contains(&k.0) {
                return Err(format!("property ({}).{} has no edge", en(&k.0), sym_name(k.1)));
            }
        }
        Ok(())
    }
}
fn harness_undetermined(q: &Q) -> ! {
    crate::harness_bug!("the workload uses a query whose value is not determined: {q:?}")
}
pub fn direction(out: bool) -> EdgeDirection {
    if out { EdgeDirection::Outbound } else { EdgeDirection::Inbound }
}
