//! C18: queries and page-by-page reading beside writers. Every writer owns
//! its vertices and what hangs on them, so that the history of each item is
//! known; what a query must and may return follows from the states its items
//! were in while it ran.
use super::hist::hash_of;
use super::store::*;
use super::*;
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Key {
    V(Vid),
    E(Ed),
    VP(Vid, Sym),
    EP(Ed, Sym),
    Idx(Sym),
}
/// What an item is at one time: absent, or present with a type or value.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum St {
    No,
    T(Sym),
    X(Val),
    Yes,
}
struct Change {
    start: u64,
    end: u64,
    to: St,
}
/// The history of everything.
#[derive(Default)]
struct Hist {
    first: Graph,
    changes: BTreeMap<Key, Vec<Change>>,
}
fn state(g: &Graph, k: &Key) -> St {
    match k {
        Key::V(v) => g.v.get(v).map(|t| St::T(*t)).unwrap_or(St::No),
        Key::E(e) => if g.e.contains(e) { St::Yes } else { St::No },
        Key::VP(v, n) => g.vp.get(&(*v, *n)).map(|x| St::X(x.clone())).unwrap_or(St::No),
        Key::EP(e, n) => g.ep.get(&(*e, *n)).map(|x| St::X(x.clone())).unwrap_or(St::No),
        Key::Idx(n) => if g.idx.contains(n) { St::Yes } else { St::No },
    }
}
fn keys(g: &Graph) -> BTreeSet<Key> {
    let mut s = BTreeSet::new();
    s.extend(g.v.keys().map(|k| Key::V(*k)));
    s.extend(g.e.iter().map(|k| Key::E(*k)));
    s.extend(g.vp.keys().map(|k| Key::VP(k.0, k.1)));
    s.extend(g.ep.keys().map(|k| Key::EP(k.0, k.1)));
    s.extend(g.idx.iter().map(|k| Key::Idx(*k)));
    s
}
impl Hist {
    fn record(&mut self, a: &Graph, b: &Graph, start: u64, end: u64) {
        if a == b {
            return;
        }
        let mut ks = keys(a);
        ks.extend(keys(b));
        for k in ks {
            let (x, y) = (state(a, &k), state(b, &k));
            if x != y {
                self.changes.entry(k).or_default().push(Change { start, end, to: y });
            }
        }
    }
    fn window(&self, qs: u64, qe: u64) -> Win {
        let mut all = keys(&self.first);
        all.extend(self.changes.keys().cloned());
        let mut m = BTreeMap::new();
        for k in all {
            let mut s = BTreeSet::new();
            let cs = self.changes.get(&k).map(|v| v.as_slice()).unwrap_or(&[]);
            // The states in order, with the time at which each may begin and the latest at which it may still hold.
            let mut begin = 0;
            let mut st = state(&self.first, &k);
            for c in cs {
                if begin <= qe && c.end >= qs {
                    s.insert(st);
                }
                begin = c.start;
                st = c.to.clone();
            }
            if begin <= qe {
                s.insert(st);
            }
            m.insert(k, s);
        }
        let mut w = Win { may: m, v: vec![], e: vec![], vp: BTreeMap::new(), ep: BTreeMap::new() };
        for (k, s) in &w.may {
            let must = s.len() == 1;
            match k {
                Key::V(v) => {
                    for t in s {
                        if let St::T(t) = t {
                            w.v.push((*v, *t, must));
                        }
                    }
                }
                Key::E(e) if s.contains(&St::Yes) => w.e.push((*e, must)),
                Key::VP(v, n) => {
                    w.vp.entry(*v).or_default().insert(*n, s.clone());
                }
                Key::EP(e, n) => {
                    w.ep.entry(*e).or_default().insert(*n, s.clone());
                }
                _ => {}
            }
        }
        w
    }
}
struct Win {
    may: BTreeMap<Key, BTreeSet<St>>,
    v: Vec<(Vid, Sym, bool)>,
    e: Vec<(Ed, bool)>,
    vp: BTreeMap<Vid, BTreeMap<Sym, BTreeSet<St>>>,
    ep: BTreeMap<Ed, BTreeMap<Sym, BTreeSet<St>>>,
}
enum Set {
    V(Vec<(Vid, Sym, bool)>),
    E(Vec<(Ed, bool)>),
    /// Every (item, name, value) with whether it must be listed.
    VP(Vec<((Vid, Sym), Sym, Val, bool)>),
    EP(Vec<(Ed, Sym, Val, bool)>),
    C(u64, u64),
}
enum Idx {
    Yes,
    Maybe,
    No,
}
impl Win {
    fn idx(&self, n: Sym) -> Idx {
        match self.may.get(&Key::Idx(n)) {
            None => Idx::No,
            Some(s) if s.len() == 1 && s.contains(&St::Yes) => Idx::Yes,
            Some(s) if s.contains(&St::Yes) => Idx::Maybe,
            _ => Idx::No,
        }
    }
    fn vprop(&self, v: Vid, n: Sym) -> BTreeSet<St> {
        self.may.get(&Key::VP(v, n)).cloned().unwrap_or_else(|| BTreeSet::from([St::No]))
    }
    fn eprop(&self, e: Ed, n: Sym) -> BTreeSet<St> {
        self.may.get(&Key::EP(e, n)).cloned().unwrap_or_else(|| BTreeSet::from([St::No]))
    }
    /// Can and must a property in one of these states be there?
    fn pres(s: &BTreeSet<St>, exists: bool) -> (bool, bool) {
        let no = s.contains(&St::No);
        let yes = s.iter().any(|x| *x != St::No);
        if exists { (yes, !no) } else { (no, !yes) }
    }
    fn equal(s: &BTreeSet<St>, x: &Val, equal: bool) -> (bool, bool) {
        let y = s.contains(&St::X(x.clone()));
        let n = s.iter().any(|z| *z != St::X(x.clone()));
        if equal { (y, !n) } else { (n, !y) }
    }
    fn eval(&self, q: &Q, used: &mut Vec<Sym>) -> Set {
        match q {
            Q::AllV => Set::V(self.v.clone()),
            Q::RangeV { limit, t, start } => {
                let c: Vec<_> = self.v.iter().filter(|x| x.0 >= start.unwrap_or(0) && t.map(|t| t == x.1).unwrap_or(true)).cloned().collect();
                let n = *limit as usize;
                let mut r = Vec::new();
                let (mut all, mut musts) = (0usize, 0usize);
                for (v, t, must) in c {
                    if musts < n {
                        r.push((v, t, must && all < n));
                    }
                    all += 1;
                    musts += must as usize;
                }
                Set::V(r)
            }
            Q::SpecV(ids) => Set::V(ids.iter().flat_map(|i| self.v.iter().filter(move |x| x.0 == *i).cloned()).collect()),
            Q::VPres(n) => {
                used.push(*n);
                Set::V(self.v.iter().filter_map(|x| { let (y, m) = Win::pres(&self.vprop(x.0, *n), true); y.then_some((x.0, x.1, x.2 && m)) }).collect())
            }
            Q::VVal(n, val) => {
                used.push(*n);
                Set::V(self.v.iter().filter_map(|x| { let (y, m) = Win::equal(&self.vprop(x.0, *n), val, true); y.then_some((x.0, x.1, x.2 && m)) }).collect())
            }
            Q::AllE => Set::E(self.e.clone()),
            Q::SpecE(es) => Set::E(es.iter().flat_map(|i| self.e.iter().filter(move |x| x.0 == *i).cloned()).collect()),
            Q::EPres(n) => {
                used.push(*n);
                Set::E(self.e.iter().filter_map(|x| { let (y, m) = Win::pres(&self.eprop(x.0, *n), true); y.then_some((x.0, x.1 && m)) }).collect())
            }
            Q::EVal(n, val) => {
                used.push(*n);
                Set::E(self.e.iter().filter_map(|x| { let (y, m) = Win::equal(&self.eprop(x.0, *n), val, true); y.then_some((x.0, x.1 && m)) }).collect())
            }
            Q::Pipe { inner, out, limit, t } => {
                let mut s = match self.eval(inner, used) {
                    Set::V(vs) => Set::E(
                        vs.iter()
                            .flat_map(|v| {
                                self.e
                                    .iter()
                                    .filter(move |e| (if *out { e.0 .0 } else { e.0 .2 }) == v.0 && t.map(|t| t == e.0 .1).unwrap_or(true))
                                    .map(move |e| (e.0, e.1 && v.2))
                            })
                            .collect(),
                    ),
                    Set::E(es) => Set::V(
                        es.iter()
                            .flat_map(|e| {
                                let id = if *out { e.0 .0 } else { e.0 .2 };
                                self.v.iter().filter(move |v| v.0 == id && t.map(|t| t == v.1).unwrap_or(true)).map(move |v| (v.0, v.1, v.2 && e.1))
                            })
                            .collect(),
                    ),
                    x => x,
                };
                // Which of more than the limit are returned is open.
                match &mut s {
                    Set::V(v) if v.len() > *limit as usize => v.iter_mut().for_each(|x| x.2 = false),
                    Set::E(v) if v.len() > *limit as usize => v.iter_mut().for_each(|x| x.1 = false),
                    _ => {}
                }
                s
            }
            Q::PPres { inner, name, exists } => {
                let s = self.eval(inner, used);
                used.push(*name);
                match s {
                    Set::V(v) => Set::V(v.into_iter().filter_map(|x| { let (y, m) = Win::pres(&self.vprop(x.0, *name), *exists); y.then_some((x.0, x.1, x.2 && m)) }).collect()),
                    Set::E(v) => Set::E(v.into_iter().filter_map(|x| { let (y, m) = Win::pres(&self.eprop(x.0, *name), *exists); y.then_some((x.0, x.1 && m)) }).collect()),
                    x => x,
                }
            }
            Q::PVal { inner, name, val, equal } => {
                let s = self.eval(inner, used);
                used.push(*name);
                match s {
                    Set::V(v) => Set::V(v.into_iter().filter_map(|x| { let (y, m) = Win::equal(&self.vprop(x.0, *name), val, *equal); y.then_some((x.0, x.1, x.2 && m)) }).collect()),
                    Set::E(v) => Set::E(v.into_iter().filter_map(|x| { let (y, m) = Win::equal(&self.eprop(x.0, *name), val, *equal); y.then_some((x.0, x.1 && m)) }).collect()),
                    x => x,
                }
            }
            Q::Props { inner, name } => match self.eval(inner, used) {
                Set::V(v) => {
                    let mut r = Vec::new();
                    for (id, t, must) in v {
                        for (n, s) in self.vp.get(&id).into_iter().flatten() {
                            if name.map(|x| x == *n).unwrap_or(true) {
                                for x in s {
                                    if let St::X(x) = x {
                                        r.push(((id, t), *n, x.clone(), must && s.len() == 1));
                                    }
                                }
                            }
                        }
                    }
                    Set::VP(r)
                }
                Set::E(v) => {
                    let mut r = Vec::new();
                    for (e, must) in v {
                        for (n, s) in self.ep.get(&e).into_iter().flatten() {
                            if name.map(|x| x == *n).unwrap_or(true) {
                                for x in s {
                                    if let St::X(x) = x {
                                        r.push((e, *n, x.clone(), must && s.len() == 1));
                                    }
                                }
                            }
                        }
                    }
                    Set::EP(r)
                }
                x => x,
            },
            Q::Include(q) => self.eval(q, used),
            Q::Count(q) => match self.eval(q, used) {
                Set::V(v) => Set::C(v.iter().filter(|x| x.2).count() as u64, v.len() as u64),
                Set::E(v) => Set::C(v.iter().filter(|x| x.1).count() as u64, v.len() as u64),
                Set::VP(v) => Set::C(
                    v.iter().filter(|x| x.3).map(|x| x.0).collect::<BTreeSet<_>>().len() as u64,
                    // An item may be listed once for each time it is among the inner results.
                    v.len() as u64,
                ),
                Set::EP(v) => Set::C(v.iter().filter(|x| x.3).map(|x| x.0).collect::<BTreeSet<_>>().len() as u64, v.len() as u64),
                c => c,
            },
        }
    }
    /// What is wrong with this answer.
    fn judge(&self, q: &Q, r: &Res) -> Result<(), String> {
        let mut used = Vec::new();
        let s = self.eval(q, &mut used);
        let outs = match r {
            Res::Panic(p) => return Err(format!("panicked: {p}")),
            Res::Err(ErrK::NotIndexed, _) => {
                if used.iter().all(|n| matches!(self.idx(*n), Idx::Yes)) {
                    return Err("says that the property is not indexed".into());
                }
                return Ok(());
            }
            Res::Err(_, m) => return Err(format!("failed: {m}")),
            Res::Outs(o) => o,
            _ => return Err(format!("gave {r:?}")),
        };
        if used.iter().any(|n| matches!(self.idx(*n), Idx::No)) {
            // Only an inner query without results hides it.
            if outs.iter().any(|o| o.len() > 0) && !matches!(q, Q::Count(_)) {
                return Err("answered by a property that is not indexed".into());
            }
            return Ok(());
        }
        let Some(o) = outs.last() else { return Err("gave no output".into()) };
        if let Q::RangeV { limit, .. } = q {
            if o.len() > *limit as usize {
                return Err(format!("returned {} vertices", o.len()));
            }
        }
        fn multi<T: Ord + Clone + std::fmt::Debug>(got: &[T], must: Vec<T>, may: Vec<T>) -> Result<(), String> {
            let count = |v: &[T]| {
                let mut m: BTreeMap<T, usize> = BTreeMap::new();
                for x in v {
                    *m.entry(x.clone()).or_default() += 1;
                }
                m
            };
            let (g, lo, hi) = (count(got), count(&must), count(&may));
            for (x, n) in &lo {
                if g.get(x).copied().unwrap_or(0) < *n {
                    return Err(format!("{x:?} is missing although it was there throughout"));
                }
            }
            for (x, n) in &g {
                if hi.get(x).copied().unwrap_or(0) < *n {
                    return Err(format!("{x:?} is listed {n} times, possible are {}", hi.get(x).copied().unwrap_or(0)));
                }
            }
            Ok(())
        }
        match (s, o) {
            (Set::V(v), Out::V(o)) => multi(
                &o.iter().map(|x| format!("vertex {}:{}", vn(x.0), sym_name(x.1))).collect::<Vec<_>>(),
                v.iter().filter(|x| x.2).map(|x| format!("vertex {}:{}", vn(x.0), sym_name(x.1))).collect(),
                v.iter().map(|x| format!("vertex {}:{}", vn(x.0), sym_name(x.1))).collect(),
            ),
            (Set::E(v), Out::E(o)) => multi(
                &o.iter().map(en).collect::<Vec<_>>(),
                v.iter().filter(|x| x.1).map(|x| en(&x.0)).collect(),
                v.iter().map(|x| en(&x.0)).collect(),
            ),
            (Set::VP(v), Out::VP(o)) => multi(
                &o.iter().flat_map(|x| x.1.iter().map(move |p| (vn(x.0 .0), sym_name(x.0 .1), p.0, p.1.clone()))).collect::<Vec<_>>(),
                v.iter().filter(|x| x.3).map(|x| (vn(x.0 .0), sym_name(x.0 .1), x.1, x.2.clone())).collect(),
                v.iter().map(|x| (vn(x.0 .0), sym_name(x.0 .1), x.1, x.2.clone())).collect(),
            ),
            (Set::EP(v), Out::EP(o)) => multi(
                &o.iter().flat_map(|x| x.1.iter().map(move |p| (en(&x.0), p.0, p.1.clone()))).collect::<Vec<_>>(),
                v.iter().filter(|x| x.3).map(|x| (en(&x.0), x.1, x.2.clone())).collect(),
                v.iter().map(|x| (en(&x.0), x.1, x.2.clone())).collect(),
            ),
            (Set::C(lo, hi), Out::C(n)) => {
                if *n < lo || *n > hi {
                    Err(format!("counted {n}, possible are {lo} to {hi}"))
                } else {
                    Ok(())
                }
            }
            (_, o) => Err(format!("gave {o:?}")),
        }
    }
}

/// A call that changes only what one writer owns.
fn owned(op: Op, own: &[Vid], perm: &[Vid]) -> Option<Op> {
    let mine = |v: &Vid| own.contains(v);
    let edge_ok = |e: &Ed| (mine(&e.0) || mine(&e.2)) && (mine(&e.0) || perm.contains(&e.0)) && (mine(&e.2) || perm.contains(&e.2));
    let q_ok = |q: &Q| match q {
        Q::SpecV(v) => v.iter().all(mine),
        Q::SpecE(v) => v.iter().all(edge_ok),
        Q::Props { inner, .. } => match &**inner {
            Q::SpecV(v) => v.iter().all(mine),
            Q::SpecE(v) => v.iter().all(edge_ok),
            _ => false,
        },
        _ => false,
    };
    match &op {
        Op::CreateV(v, _) => mine(v),
        Op::CreateE(e) => edge_ok(e),
        Op::Delete(q) => q_ok(q),
        Op::SetP(q, _, _) => q_ok(q),
        Op::Bulk(b) => b.iter().all(|i| match i {
            Item::V(v, _) => mine(v),
            Item::E(e) => edge_ok(e),
            Item::VP(v, _, _) => mine(v),
            Item::EP(e, _, _) => edge_ok(e),
        }),
        Op::Get(q) => q_ok(q),
        Op::Sync => true,
        _ => false,
    }
    .then_some(op)
}

enum Read {
    Q(Q),
    /// Page by page, so many vertices a page, from the beginning.
    Pages(u32),
}

pub fn rocks_read(job: &Job) {
    let mut r = job.rng(1);
    let mut u = universe(&mut r, UniOpts { max_ids: 8, max_names: 2, big_values: false });
    while u.ids.len() < 6 {
        let x = (r.next() as u128) << 64 | r.next() as u128;
        u.ids.push(x);
    }
    let kind = *r.pick(&[0u32, 2, 3, 3, 4]);
    let nw = r.range(1, 3);
    let nr = r.range(1, 2);
    let large = r.pct(15);
    if large {
        for _ in 0..r.range(40, 150) {
            let x = (r.next() as u128) << 64 | r.next() as u128;
            u.ids.push(x);
        }
    }
    u.ids.sort();
    u.ids.dedup();
    // Whose vertex is whose; 0: nobody's.
    let owner: Vec<usize> = u.ids.iter().map(|_| if r.pct(35) { 0 } else { r.range(1, nw) }).collect();
    let of = |t: usize| u.ids.iter().zip(&owner).filter(|x| *x.1 == t).map(|x| *x.0).collect::<Vec<Vid>>();
    let perm = of(0);
    // The beginning: all of nobody's vertices, and some of the others.
    let late = r.pct(40);
    let mut sops: Vec<Op> = Vec::new();
    let mut indexed = Vec::new();
    for n in &u.names {
        if r.pct(75) {
            sops.push(Op::Index(*n));
            indexed.push(*n);
        }
    }
    {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: false, max_bulk: 8 };
        let ts: Vec<Item> = u.ids.iter().filter(|v| perm.contains(v) || g.r.pct(70)).cloned().collect::<Vec<_>>().into_iter().map(|v| Item::V(v, g.type_of(v))).collect();
        sops.push(Op::Bulk(ts));
        for _ in 0..g.r.range(2, 12) * if large { 6 } else { 1 } {
            sops.push(match g.r.weighted(&[5, 3, 2]) {
                0 => {
                    // No edge has two owners.
                    let e = g.edge();
                    let o = |v: Vid| owner[u.ids.iter().position(|x| *x == v).unwrap()];
                    if o(e.0) != 0 && o(e.2) != 0 && o(e.0) != o(e.2) {
                        continue;
                    }
                    Op::CreateE(e)
                }
                1 => Op::SetP(Q::SpecV(vec![g.vid()]), g.name(), g.val()),
                _ => Op::SetP(Q::SpecE(vec![g.edge()]), g.name(), g.val()),
            });
        }
    }
    let mix = *r.pick(CONC_MIXES);
    let wn = if large { r.range(5, 30) } else { r.range(2, 14) };
    let mut wops: Vec<Vec<Op>> = Vec::new();
    for t in 1..=nw {
        let own = of(t);
        let mut v = Vec::new();
        if !own.is_empty() {
            let mut ids = own.clone();
            ids.extend(perm.iter().take(4));
            let wu = Uni { ids, ..u.clone() };
            let mut tries = 0;
            while v.len() < wn && tries < 2000 {
                tries += 1;
                let mut g = Gen { r: &mut r, u: &wu, indexed: indexed.clone(), limits: false, max_bulk: if large { 60 } else { 5 } };
                if g.r.pct(3) {
                    v.push(Op::Sync);
                } else if let Some(o) = owned(narrow_op(&mut g, &mix), &own, &perm) {
                    v.push(o);
                }
            }
        }
        if t == 1 && late && indexed.len() < u.names.len() {
            let n = *u.names.iter().find(|n| !indexed.contains(n)).unwrap();
            let k = r.below(v.len() + 1);
            v.insert(k, Op::Index(n));
        }
        wops.push(v);
    }
    let rn = r.range(2, 8);
    let mut rops: Vec<Vec<Read>> = Vec::new();
    for _ in 0..nr {
        let mut v = Vec::new();
        for _ in 0..rn {
            let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: true, max_bulk: 0 };
            v.push(if g.r.pct(20) {
                Read::Pages(*g.r.pick(&[1u32, 1, 2, 3, 5, 17]))
            } else {
                let d = g.r.range(0, 4);
                let k = *g.r.pick(&[Kind::V, Kind::E, Kind::V, Kind::E, Kind::P, Kind::C]);
                Read::Q(loop {
                    let q = g.query(k, d);
                    if !has_include(&q) {
                        break q;
                    }
                })
            });
        }
        rops.push(v);
    }
    set_nops(sops.len() + wops.iter().map(|x| x.len()).sum::<usize>() + rops.iter().map(|x| x.len()).sum::<usize>());
    job.begin(job.cfg(*job.rng(3).pick(&[20_000u64, 100_000, 400_000])));
    let db = Arc::new(open_ok(kind, "creating a database"));
    let mut g = Graph { bulk_overwrites: true, ..Default::default() };
    super::hist::setup(&db, &mut g, &sops, 0);
    let mut id = sops.len();
    let hist = Arc::new(Mutex::new(Hist { first: g.clone(), ..Default::default() }));
    // (query, answer, when)
    let answers = Arc::new(Mutex::new(Vec::<(Q, Res, u64, u64)>::new()));
    let pages = Arc::new(Mutex::new(Vec::<(u32, Vec<(Vid, Sym)>, u64, u64)>::new()));
    tr!("--- threads start");
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for ops in wops {
        let (db, hist, mut g) = (db.clone(), hist.clone(), g.clone());
        let base = id;
        id += ops.len();
        fs.push(Box::new(move || {
            for (i, op) in ops.iter().enumerate() {
                if dropped((base + i) as u32) {
                    continue;
                }
                let start = stamp();
                let res = exec(&db, op);
                let end = stamp();
                unsafe { sim_nopoint(1) };
                let before = g.clone();
                if let Err(m) = g.apply(op, &res) {
                    fail!("[own] {op:?}: {m} (nobody else writes to these)");
                }
                hist.lock().unwrap().record(&before, &g, start, end);
                unsafe { sim_nopoint(-1) };
            }
        }));
    }
    for ops in rops {
        let (db, answers, pages) = (db.clone(), answers.clone(), pages.clone());
        let base = id;
        id += ops.len();
        fs.push(Box::new(move || {
            for (i, op) in ops.iter().enumerate() {
                if dropped((base + i) as u32) {
                    continue;
                }
                match op {
                    Read::Q(q) => {
                        let start = stamp();
                        let res = exec(&db, &Op::Get(q.clone()));
                        let end = stamp();
                        unsafe { sim_mix(0x7e5, hash_of(&format!("{res:?}"))) };
                        unsafe { sim_nopoint(1) };
                        answers.lock().unwrap().push((q.clone(), res, start, end));
                        unsafe { sim_nopoint(-1) };
                    }
                    Read::Pages(n) => {
                        let start = stamp();
                        let mut all: Vec<(Vid, Sym)> = Vec::new();
                        let mut from = Some(0);
                        while let Some(f) = from {
                            hstat(h::PAGES, 1);
                            match exec(&db, &Op::Get(Q::RangeV { limit: *n, t: None, start: Some(f) })) {
                                Res::Outs(o) => match &o[..] {
                                    [Out::V(v)] => {
                                        if v.len() > *n as usize {
                                            fail!("[page] a page of at most {n} vertices has {}", v.len());
                                        }
                                        from = if v.len() < *n as usize { None } else { v.last().and_then(|x| x.0.checked_add(1)) };
                                        all.extend(v.iter().cloned());
                                    }
                                    o => fail!("[page] a page is {o:?}"),
                                },
                                r => fail!("[page] reading a page failed: {r:?}"),
                            }
                        }
                        let end = stamp();
                        unsafe { sim_nopoint(1) };
                        pages.lock().unwrap().push((*n, all, start, end));
                        unsafe { sim_nopoint(-1) };
                    }
                }
            }
        }));
    }
    parallel(fs);
    tr!("--- threads done");
    let hist = hist.lock().unwrap();
    let mut beside = 0;
    for (q, res, s, e) in answers.lock().unwrap().iter() {
        if hist.changes.values().flatten().any(|c| c.start <= *e && c.end >= *s) {
            beside += 1;
        }
        if let Err(m) = hist.window(*s, *e).judge(q, res) {
            fail!("[read] {q:?} {m}; it gave {res:?}");
        }
    }
    for (n, all, s, e) in pages.lock().unwrap().iter() {
        if hist.changes.values().flatten().any(|c| c.start <= *e && c.end >= *s) {
            beside += 1;
        }
        if let Some(w) = all.windows(2).find(|w| w[0].0 >= w[1].0) {
            fail!("[page] pages of {n}: {} comes before {}", vn(w[0].0), vn(w[1].0));
        }
        let w = hist.window(*s, *e);
        for (v, t, must) in &w.v {
            if *must && !all.contains(&(*v, *t)) {
                fail!("[page] pages of {n}: vertex {} was there throughout and on no page", vn(*v));
            }
        }
        for x in all {
            if !w.v.iter().any(|y| (y.0, y.1) == *x) {
                fail!("[page] pages of {n}: vertex {}:{} was not there", vn(x.0), sym_name(x.1));
            }
        }
    }
    if beside > 0 {
        hstat(h::OVERLAP, beside);
        nontrivial();
    }
}
fn has_include(q: &Q) -> bool {
    match q {
        Q::Include(_) => true,
        Q::Pipe { inner, .. } | Q::Props { inner, .. } | Q::PPres { inner, .. } | Q::PVal { inner, .. } | Q::Count(inner) => has_include(inner),
        _ => false,
    }
}
