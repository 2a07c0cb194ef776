//! C16: vertices created without an identifier, by many threads, under a wall
//! clock that jumps, stands still or starts over when the process does.
use super::store::*;
use super::*;
use crate::exec::*;
use crate::gen::*;
use crate::lin::Ev;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use sut::db::Db;

const IMG: &str = "/sim/image";

#[derive(Clone)]
enum Step {
    /// Create a vertex of this type.
    New(Sym),
    /// Set a property of the last one this thread created.
    Set(Sym, Val),
    /// A vertex with an identifier of its own.
    Own(Vid, Sym),
}

pub fn ids_mem(job: &Job) {
    run(job, false)
}
pub fn ids_rocks(job: &Job) {
    run(job, true)
}

fn run(job: &Job, rocks: bool) {
    let mut r = job.rng(1);
    let u = universe(&mut r, UniOpts { max_ids: 4, max_names: 2, big_values: false });
    let epochs = *r.pick(&[1u32, 2, 2, 3]);
    let kind = *r.pick(&[0u32, 2, 3]);
    let image = !rocks && (epochs > 1 || r.pct(20));
    let gran = *r.pick(&[0u32, 0, 1, 1000, 15_625, 3_600_000_000]);
    // In a few runs, more than the generator's counter can tell apart.
    let many = !rocks && epochs == 1 && r.pct(1);
    let mut first = 0;
    let mut mine: Vec<Vec<Step>> = Vec::new();
    let mut total = 0;
    for e in 0..epochs {
        let mut r = job.rng(100 + e as u64);
        let nt = *r.pick(&[1usize, 2, 3, 4, 4, 6]);
        let n = if many { 17_000 / nt + 1 } else { *r.pick(&[3usize, 8, 20, 60]) };
        let g: Vec<Vec<Step>> = (0..nt)
            .map(|_| {
                (0..r.range(n / 2 + 1, n.max(n / 2 + 1)))
                    .map(|_| match if many { 0 } else { r.weighted(&[80, 12, 8]) } {
                        0 => Step::New(*r.pick(&u.types)),
                        1 => Step::Set(*r.pick(&u.names), r.pick(&u.vals).clone()),
                        _ => {
                            let v = *r.pick(&u.ids);
                            // Its type depends on it alone.
                            Step::Own(v, u.types[(v as usize ^ (v >> 64) as usize) % u.types.len()])
                        }
                    })
                    .collect()
            })
            .collect();
        let k: usize = g.iter().map(|x| x.len()).sum();
        if e < job.epoch {
            first += k;
        }
        if e == job.epoch {
            mine = g;
        }
        total += k;
    }
    set_nops(if many { 0 } else { total });
    let mut er = job.rng(500 + job.epoch as u64);
    let mut c = job.cfg(*er.pick(&[20_000u64, 200_000]));
    c.clock_gran_us = gran;
    // From when the database is open: RocksDB's own timer may make opening
    // fail when the clock goes backwards at that moment.
    let jumps = *er.pick(&[0u32, 0, 30_000, 400_000]);
    if job.epoch > 0 {
        // The clock of the restarted process.
        c.clock_base += *er.pick(&[0i64, 0, 0, -1_000, 5_000_000, -3_600_000_000_000, 100, 2_000]);
    }
    let last = job.epoch + 1 == epochs;
    if !last {
        c.crash_kind = 1;
    }
    let (_, before, _) = since_base(load());
    job.begin(c);
    let db = Arc::new(if rocks {
        open_ok(kind, "opening the database")
    } else if image && job.epoch > 0 {
        match catch(|| Db::mem_read(IMG)) {
            Ok(Ok(d)) => d,
            Ok(Err(e)) => fail!("[open] reading the image failed: {e}"),
            Err(p) => fail!("[panic] reading the image panicked: {p}"),
        }
    } else if image {
        Db::mem_create(IMG)
    } else {
        Db::mem()
    });
    cfg().clockjump_ppm = jumps;
    if job.epoch > 0 {
        check(&db, &before, job.epoch);
    }
    if rocks && !last && er.pct(60) {
        unsafe { sim_at_crash(er.range(1, 60) as u64) };
    }
    let evs: Arc<Mutex<Vec<Ev>>> = Arc::new(Mutex::new(Vec::new()));
    let mut id = first;
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (t, v) in mine.into_iter().enumerate() {
        let (db, evs) = (db.clone(), evs.clone());
        let base = id;
        id += v.len();
        fs.push(Box::new(move || {
            let mut mine: Option<Vid> = None;
            for (i, s) in v.into_iter().enumerate() {
                if dropped((base + i) as u32) {
                    continue;
                }
                let op = match s {
                    Step::New(t) => {
                        hstat(h::GENIDS, 1);
                        Op::CreateVT(t)
                    }
                    Step::Set(n, x) => match mine {
                        Some(v) => Op::SetP(Q::SpecV(vec![v]), n, x),
                        None => continue,
                    },
                    Step::Own(v, t) => Op::CreateV(v, t),
                };
                let e = if many {
                    let start = stamp();
                    let res = exec(&db, &op);
                    Ev { thread: t as u32, op, res: Some(res), start, end: stamp(), durable: false, maybe: false }
                } else {
                    exec_logged(&db, &op, t as u32 + 1, (base + i) as u32)
                };
                if let Some(Res::Id(v)) = e.res {
                    mine = Some(v);
                }
                unsafe { sim_nopoint(1) };
                evs.lock().unwrap().push(e);
                unsafe { sim_nopoint(-1) };
            }
        }));
    }
    if fs.len() > 1 {
        nontrivial();
    }
    parallel(fs);
    let mut all = before;
    all.extend(std::mem::take(&mut *evs.lock().unwrap()));
    all.sort_by_key(|e| e.start);
    check(&db, &all, job.epoch);
    if job.epoch > 0 {
        nontrivial();
    }
    if !last {
        if image {
            match exec(&db, &Op::Sync) {
                Res::Unit => {}
                r => fail!("[sync] saving the image failed: {r:?}"),
            }
        }
        unsafe { sim_crash() };
    }
}

fn check(db: &Db, evs: &[Ev], epoch: u32) {
    let mut v: BTreeMap<Vid, Sym> = BTreeMap::new();
    let mut vp: BTreeMap<(Vid, Sym), BTreeSet<Val>> = BTreeMap::new();
    let mut made: BTreeSet<Vid> = BTreeSet::new();
    // Calls whose outcome the crash hid.
    let mut unknown: Vec<Sym> = Vec::new();
    for e in evs {
        match (&e.op, &e.res) {
            (Op::CreateVT(t), Some(Res::Id(i))) => {
                if !made.insert(*i) {
                    fail!("[twice] the identifier {} was returned twice", uuid(*i));
                }
                if let Some(o) = v.insert(*i, *t) {
                    fail!("[taken] the identifier {} was taken by a vertex of type {}", uuid(*i), sym_name(o));
                }
            }
            (Op::CreateVT(t), None) => unknown.push(*t),
            // Only a counter that started over can meet one that is taken.
            (Op::CreateVT(_), Some(Res::Err(ErrK::UuidTaken, _))) if epoch > 0 || made.len() > 16_000 => {}
            (Op::CreateV(i, t), r) if r.as_ref().map(|r| matches!(r, Res::Bool(_))).unwrap_or(true) => {
                if r.is_some() || get_v(db, *i) {
                    v.entry(*i).or_insert(*t);
                }
            }
            (Op::SetP(Q::SpecV(i), n, x), r) if !r.as_ref().map(|r| r.is_err()).unwrap_or(false) => {
                let s = vp.entry((i[0], *n)).or_default();
                if r.is_some() {
                    s.clear();
                }
                s.insert(x.clone());
            }
            (o, r) => fail!("[call] {o:?} gave {r:?}"),
        }
    }
    let u = Uni::default();
    let d = match dump(db, &u, true) {
        Ok(d) => d,
        Err(m) => fail!("[dump] {m}"),
    };
    for (i, t) in &v {
        match d.v.get(i) {
            None => fail!("[lost] vertex {} is missing", uuid(*i)),
            Some(x) if x != t => fail!("[retyped] vertex {} has type {} instead of {}", uuid(*i), sym_name(*x), sym_name(*t)),
            _ => {}
        }
    }
    for (i, t) in &d.v {
        if !v.contains_key(i) {
            match unknown.iter().position(|x| x == t) {
                Some(k) => {
                    unknown.remove(k);
                }
                None => fail!("[extra] vertex {} of type {} was made by no call", uuid(*i), sym_name(*t)),
            }
        }
    }
    for ((i, n), xs) in &vp {
        match d.vp.get(&(*i, *n)) {
            Some(x) if xs.contains(x) => {}
            None if evs.iter().any(|e| e.res.is_none()) && xs.len() == 1 && evs.iter().any(|e| e.res.is_none() && matches!(&e.op, Op::SetP(Q::SpecV(v), m, _) if v[0] == *i && m == n)) => {}
            x => fail!("[property] {}.{} is {x:?}, set was {xs:?}", uuid(*i), sym_name(*n)),
        }
    }
    for k in d.vp.keys() {
        if !vp.contains_key(k) {
            fail!("[property] {}.{} was set by no call", uuid(k.0), sym_name(k.1));
        }
    }
}
fn get_v(db: &Db, i: Vid) -> bool {
    matches!(exec(db, &Op::Get(Q::SpecV(vec![i]))), Res::Outs(o) if o.iter().any(|o| o.len() > 0))
}
