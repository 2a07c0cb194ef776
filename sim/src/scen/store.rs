//! Databases on the simulated disk: histories by one or more callers with
//! reopening, crashes and disk faults in between.
use super::hist::*;
use super::*;
use crate::exec::*;
use crate::gen::*;
use crate::lin::{self, Ev, Fin};
use crate::model::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use sut::db::Db;

/// Which oracles a run applies (params[0]; 0 means the scenario's default).
pub const O_MODEL: i64 = 1;
pub const O_STRUCT: i64 = 2;
pub const O_INDEX: i64 = 4;
pub const O_DUMP: i64 = 8;
pub const O_RESUR: i64 = 16;
pub const O_PANIC: i64 = 32;

/// What survives a simulated crash in the event log.
#[derive(Serialize, Deserialize)]
pub enum Rec {
    Base(Graph),
    Start { id: u32, thread: u32, op: Op, at: u64 },
    End { id: u32, res: Res, at: u64 },
    /// The database was created or opened successfully.
    Opened,
    /// Everything before this was forced to disk.
    Image(Graph),
    Note(u32, u64),
}
pub fn log(r: &Rec) {
    unsafe { sim_nopoint(1) };
    log_event(&bincode::serialize(r).unwrap());
    unsafe { sim_nopoint(-1) };
}
pub fn load() -> Vec<Rec> {
    events().iter().map(|b| bincode::deserialize(b).expect("event")).collect()
}
/// The calls since the last known state, and that state.
pub fn since_base(recs: Vec<Rec>) -> (Option<Graph>, Vec<Ev>, bool) {
    let mut base = None;
    let mut evs: Vec<Ev> = Vec::new();
    let mut ids: Vec<u32> = Vec::new();
    let mut opened = false;
    let mut top = 0;
    for r in recs {
        match r {
            Rec::Base(g) => {
                base = Some(g);
                evs.clear();
                ids.clear();
            }
            Rec::Start { id, thread, op, at } => {
                top = top.max(at);
                ids.push(id);
                evs.push(Ev { thread, op, res: None, start: at, end: u64::MAX, durable: false, maybe: false });
            }
            Rec::End { id, res, at } => {
                top = top.max(at);
                let k = ids.iter().rposition(|x| *x == id).unwrap();
                evs[k].res = Some(res);
                evs[k].end = at;
            }
            Rec::Opened => opened = true,
            _ => {}
        }
    }
    set_stamp(top + 1);
    (base, evs, opened)
}
/// Calls that returned before a successful sync began are durable.
pub fn mark_durable(evs: &mut [Ev]) {
    let last = evs.iter().filter(|e| e.op == Op::Sync && e.res == Some(Res::Unit)).map(|e| e.start).max().unwrap_or(0);
    for e in evs.iter_mut() {
        if e.op != Op::Sync && e.end < last && !e.maybe {
            e.durable = true;
        }
    }
}

/// As `exec`, recorded so that it survives a crash.
pub fn exec_logged(db: &Db, op: &Op, thread: u32, id: u32) -> Ev {
    let start = stamp();
    log(&Rec::Start { id, thread, op: op.clone(), at: start });
    let res = exec(db, op);
    let end = stamp();
    log(&Rec::End { id, res: res.clone(), at: end });
    unsafe { sim_mix(0x7e5, hash_of(&format!("{res:?}"))) };
    Ev { thread, op: op.clone(), res: Some(res), start, end, durable: false, maybe: false }
}

pub fn run_logged(db: &Arc<Db>, ops: &[Vec<Op>], first: usize) -> Vec<Ev> {
    let evs = Arc::new(Mutex::new(Vec::new()));
    let mut id = first;
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (t, v) in ops.iter().enumerate() {
        let mine: Vec<(usize, Op)> = v.iter().map(|o| { id += 1; (id - 1, o.clone()) }).filter(|x| !dropped(x.0 as u32)).collect();
        let (db, evs) = (db.clone(), evs.clone());
        fs.push(Box::new(move || {
            for (i, op) in mine {
                let e = exec_logged(&db, &op, t as u32 + 1, i as u32);
                unsafe { sim_nopoint(1) };
                evs.lock().unwrap().push(e);
                unsafe { sim_nopoint(-1) };
            }
        }));
    }
    if fs.len() == 1 {
        fs.pop().unwrap()();
    } else {
        parallel(fs);
    }
    let mut v = std::mem::take(&mut *evs.lock().unwrap());
    v.sort_by_key(|e| e.start);
    v
}

pub const PATH: &str = "/sim/db";

pub fn open_ok(kind: u32, what: &str) -> Db {
    match catch(|| Db::rocks_kind(PATH, kind)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => fail!("[open] {what} failed: {e}"),
        Err(p) => fail!("[panic] {what} panicked: {p}"),
    }
}
pub fn dump_ok(db: &Db, u: &Uni) -> Graph {
    let over = matches!(db, Db::Rocks(_));
    match dump(db, u, over) {
        Ok(g) => g,
        Err(m) => fail!("[dump] {m}"),
    }
}

/// Oracles over a quiet database.
pub fn quiet_checks(db: &Db, g: &Graph, u: &Uni, mask: i64) {
    if mask & O_STRUCT != 0 {
        if let Err(m) = g.consistent() {
            fail!("[dangling] {m}");
        }
        if let Err(m) = audit(db, g, u, A_STRUCT) {
            fail!("[views] {m}");
        }
    }
    if mask & O_INDEX != 0 {
        if let Err(m) = audit(db, g, u, A_INDEX) {
            fail!("[index] {m}");
        }
    }
}

/// C02: threads on one RocksDB database, every call atomic.
pub fn rocks_lin(job: &Job) {
    let mask = job.mask(O_MODEL | O_PANIC | O_DUMP);
    let mut r = job.rng(1);
    let mut u = universe(&mut r, UniOpts { max_ids: 5, max_names: 2, big_values: false });
    let racing_index = r.pct(20);
    let is_hot = !racing_index && r.pct(20);
    if is_hot {
        hot(&mut u);
    }
    let n = if racing_index || is_hot { r.range(4, 12) } else { r.range(0, 10) };
    let (sops, indexed) = setup_ops_with(&mut r, &u, n, if racing_index { 15 } else if is_hot { 90 } else { 60 });
    let kind = *r.pick(&[0u32, 1, 2, 3, 4]);
    let nt = *r.pick(&[2usize, 2, 3, 3, 4]);
    let per = *r.pick(&[2usize, 4, 6, 8]);
    let mix = if racing_index { INDEX_MIX } else if is_hot { HOT_MIX } else { *r.pick(CONC_MIXES) };
    let mut ops = Vec::new();
    let max_bulk = bulk_cap(&mut r, 5);
    for _ in 0..nt {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: false, max_bulk };
        ops.push((0..g.r.range(1, per)).map(|_| narrow_op(&mut g, &mix)).collect::<Vec<_>>());
    }
    let span = *r.pick(&[20000u64, 100000, 400000]);
    set_nops(sops.len() + ops.iter().map(|o| o.len()).sum::<usize>());
    job.begin(job.cfg(span));
    let db = Arc::new(open_ok(kind, "creating a database"));
    let mut g = Graph { bulk_overwrites: true, ..Default::default() };
    setup(&db, &mut g, &sops, 0);
    tr!("--- threads start");
    let evs = run_threads(&db, &ops, sops.len());
    tr!("--- threads done");
    if lin::overlaps(&evs) > 0 {
        nontrivial();
    }
    if mask & O_PANIC != 0 {
        panics(&evs);
    }
    let fin = dump_ok(&db, &u);
    if mask & O_MODEL != 0 {
        lin_check(&g, &evs, Fin::End(&fin));
    }
    quiet_checks(&db, &fin, &u, mask);
    if mask & O_RESUR != 0 {
        if let Err(m) = resurrect(&db, &fin, &u, A_STRUCT) {
            fail!("[resurrected] {m}");
        }
    }
}

/// C06, C07: crashes at any write to disk, then recovery.
fn rocks_crash(job: &Job, power: bool) {
    let mask = job.mask(O_MODEL | O_PANIC | O_DUMP | O_INDEX);
    let mut r = job.rng(1);
    // One log file of many blocks, nearly all of it not yet on the disk.
    let long = power && r.pct(12);
    let kind = if long { r.below(2) as u32 } else { *r.pick(&[0u32, 1, 2, 2, 3, 3, 4]) };
    let big = kind >= 2 && r.pct(60);
    let mut u = universe(&mut r, UniOpts { max_ids: 7, max_names: 3, big_values: big });
    if long {
        let n = u.vals.len();
        for (v, k) in u.vals.iter_mut().zip([3000, 6000, 9000, 5000, 2000]).take(n.max(2) - 1) {
            *v = val(&serde_json::json!("x".repeat(k)));
        }
    }
    let conc = !long && r.pct(45);
    // A batch that is larger than anything else.
    let giant = if !long && !big && job.rng(3).below(250) == 0 { job.rng(3).range(9_000, 25_000) } else { 0 };
    let ncrash = *r.pick(&[1u32, 1, 2, 3]);
    let mix = if long { CONC_MIXES[2] } else { *r.pick(CONC_MIXES) };
    let per = if long { 40 } else { *r.pick(&[4usize, 8, 14, 24]) };
    let syncs = if long { 1 } else if power { r.range(4, 25) } else { *r.pick(&[0usize, 0, 5, 15]) };
    // Steps are numbered through all epochs.
    let mut first = 0;
    let mut mine = Vec::new();
    let mut total = 0;
    let max_bulk = bulk_cap(&mut r, 8);
    for e in 0..=ncrash {
        let mut r = job.rng(100 + e as u64);
        let mut v = Vec::new();
        let nt = if conc { r.range(2, 3) } else { 1 };
        for t in 0..nt {
            let mut g = Gen { r: &mut r, u: &u, indexed: u.names.clone(), limits: false, max_bulk };
            let n = if conc { g.r.range(1, per.min(8)) } else { g.r.range(1, per) };
            v.push(
                (0..n)
                    .map(|i| {
                        if giant > 0 && e == 0 && t == 0 && i == 1 {
                            super::net::wide_bulk_of(&mut g, 5 << 72, giant, false)
                        } else if g.r.pct(syncs) {
                            Op::Sync
                        } else if e == 0 && t == 0 && i < 2 && g.r.pct(60) {
                            Op::Index(*g.r.pick(&g.u.names))
                        } else if conc {
                            crash_op(narrow_op(&mut g, &mix), &mut g)
                        } else {
                            crash_op(any_op(&mut g, &mix), &mut g)
                        }
                    })
                    .collect::<Vec<_>>(),
            );
        }
        if e < job.epoch {
            first += v.iter().map(|x| x.len()).sum::<usize>();
        }
        if e == job.epoch {
            mine = v.clone();
        }
        total += v.iter().map(|x| x.len()).sum::<usize>();
    }
    set_nops(total);
    let n: usize = mine.iter().map(|v| v.len()).sum();
    let mut er = job.rng(500 + job.epoch as u64);
    let mut c = job.cfg(*er.pick(&[50_000u64, 300_000]));
    if job.epoch < ncrash {
        c.crash_kind = if power { 2 } else { 1 };
        // Some crashes hit creation or recovery itself.
        if er.pct(25) {
            c.crash_io = er.range(1, if job.epoch == 0 { 160 } else { 60 }) as u64;
        }
    }
    c.shadow = power as u32;
    c.fsmode = er.below(2) as u32;
    let (base, mut evs, _) = since_base(load());
    if job.epoch > 0 {
        nontrivial();
    }
    job.begin(c);
    let db = Arc::new(open_ok(kind, if job.epoch == 0 { "creating the database" } else { "reopening the database after the crash" }));
    log(&Rec::Opened);
    if job.epoch > 0 {
        let g = dump_ok(&db, &u);
        let base = base.unwrap_or(Graph { bulk_overwrites: true, ..Default::default() });
        if mask & O_PANIC != 0 {
            panics(&evs);
        }
        if power {
            mark_durable(&mut evs);
        }
        if mask & O_MODEL != 0 {
            if power {
                lin_check(&base, &evs, Fin::Prefix(&g));
            } else {
                lin_check(&base, &evs, Fin::End(&g));
            }
        }
        quiet_checks(&db, &g, &u, mask);
        log(&Rec::Base(g));
    }
    if job.epoch < ncrash && cfg().crash_io == 0 {
        let k = if er.pct(60) { 1 + n + n / 2 } else { *er.pick(&[20usize, 80, 300]) };
        unsafe { sim_at_crash(er.range(1, k) as u64) };
    }
    let evs = run_logged(&db, &mine, first);
    if job.epoch < ncrash {
        unsafe { sim_crash() };
    }
    // The last time without a crash: close, reopen, compare.
    if mask & O_PANIC != 0 {
        panics(&evs);
    }
    let g = dump_ok(&db, &u);
    let (base, _, _) = since_base(load());
    let base = base.unwrap_or(Graph { bulk_overwrites: true, ..Default::default() });
    if mask & O_MODEL != 0 {
        lin_check(&base, &evs, Fin::End(&g));
    }
    quiet_checks(&db, &g, &u, mask);
    drop(db);
    let db = open_ok(kind, "reopening the database");
    let g2 = dump_ok(&db, &u);
    if mask & O_MODEL != 0 && g2 != g {
        fail!("[reopen] after reopening: {}", g.diff(&g2));
    }
    if mask & O_RESUR != 0 {
        if let Err(m) = resurrect(&db, &g2, &u, A_STRUCT) {
            fail!("[resurrected] {m}");
        }
    }
}
/// Calls whose effect is known even when their answer is not.
pub fn crash_op(op: Op, g: &mut Gen) -> Op {
    match op {
        Op::CreateVT(t) => Op::CreateV(g.vid(), t),
        o => o,
    }
}
pub fn rocks_kill(job: &Job) {
    rocks_crash(job, false)
}
pub fn rocks_power(job: &Job) {
    rocks_crash(job, true)
}

/// C05 (and C03, C04, C17): one caller, every kind of call, compared with the
/// reference graph step by step; background work, syncs and reopening.
pub fn seq(job: &Job) {
    seq_with(job, job.mask(O_MODEL | O_PANIC | O_DUMP | O_STRUCT | O_INDEX), false)
}
/// C04: the same with numbers that the RocksDB datastore does not read back as
/// they were written; the index has to agree with what is read.
pub fn seq_float(job: &Job) {
    seq_with(job, job.mask(O_PANIC | O_STRUCT | O_INDEX) & !O_MODEL, true)
}
fn seq_with(job: &Job, mask: i64, floats: bool) {
    let mut r = job.rng(1);
    // 0 memory, 1 memory with an image, 2.. RocksDB
    let which = match job.param(1) {
        0 => r.weighted(&[25, 10, 20, 10, 20, 20, 12]) as u32,
        1 => r.weighted(&[0, 25, 20, 10, 25, 20, 12]) as u32,
        x => (x - 2) as u32,
    };
    let reopen_pct: usize = if job.param(2) > 0 { job.param(2) as usize } else { *r.pick(&[0usize, 0, 3]) };
    let rocks = which >= 2;
    let big = which >= 4 && r.pct(60);
    let mut u = universe(&mut r, UniOpts { max_ids: 9, max_names: 3, big_values: big });
    // Many properties, nearly all of them indexed.
    let many = !floats && !big && r.pct(5);
    if many {
        for i in 0..r.range(6, 20) {
            u.names.push(sym(&format!("x{i}")));
        }
    }
    // Many elements.
    let wide = !floats && !many && r.pct(2);
    let hub_id = 1u128 << 80;
    if wide {
        u.ids.push(hub_id);
        u.ids.sort();
    }
    // Many calls.
    let long = !floats && !many && !wide && !big && r.pct(1);
    if floats {
        for v in u.vals.iter_mut() {
            *v = loop {
                let x = (r.next() >> 11) as f64 * 2f64.powi(r.range(0, 90) as i32 - 70);
                let y: f64 = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
                if x != y {
                    break val(&serde_json::json!(x));
                }
            };
        }
    }
    let mut mix = *r.pick(MIXES);
    mix.sync = *r.pick(&[0usize, 3, 10]);
    mix.createt = *r.pick(&[0usize, 2]);
    let n = if long { r.range(300, if rocks { 700 } else { 1500 }) } else { *r.pick(&[8usize, 20, 40, 80]) };
    let (sops, indexed) = {
        let k = r.range(0, 14);
        setup_ops(&mut r, &u, k)
    };
    enum Step {
        Op(Op),
        Reopen(u32),
        Repair,
        Check,
    }
    let mut steps: Vec<Step> = sops.into_iter().map(Step::Op).collect();
    let mut indexed = indexed;
    if many {
        for x in &u.names {
            if r.pct(90) && !indexed.contains(x) {
                indexed.push(*x);
                steps.push(Step::Op(Op::Index(*x)));
            }
        }
    }
    let max_bulk = bulk_cap(&mut r, 12);
    {
        let mut g = Gen { r: &mut r, u: &u, indexed, limits: true, max_bulk };
        for i in 0..n {
            if wide && (i == 0 || g.r.pct(3)) {
                let n = *g.r.pick(&[20usize, 99, 99, 150, 300]);
                let hub = g.r.pct(70);
                steps.push(Step::Op(super::net::wide_bulk_of(&mut g, if hub { hub_id } else { (i as u128 + 1) << 72 }, n, hub)));
            }
            if if long { g.r.pct(reopen_pct.min(1)) } else { g.r.pct(reopen_pct) } {
                steps.push(if rocks && g.r.pct(15) { Step::Repair } else { Step::Reopen(*g.r.pick(&[0u32, 1, 2, 3, 4])) });
            } else if g.r.pct(if long { 1 } else { 3 }) {
                steps.push(Step::Check);
            } else {
                let op = any_op(&mut g, &mix);
                if let Op::Index(n) = &op {
                    if !g.indexed.contains(n) {
                        g.indexed.push(*n);
                    }
                }
                steps.push(Step::Op(op));
            }
        }
    }
    set_nops(steps.len());
    job.begin(job.cfg(100_000));
    let mut kind = if rocks { which - 2 } else { 0 };
    const IMG: &str = "/sim/image";
    let mut db = match which {
        0 => Db::mem(),
        1 => Db::mem_create(IMG),
        _ => open_ok(kind, "creating a database"),
    };
    let mut g = Graph { bulk_overwrites: rocks, ..Default::default() };
    let follow = mask & O_MODEL != 0;
    let check = |db: &Db, g: &Graph| {
        let d = dump_ok(db, &u);
        if follow && *g != d {
            fail!("[state] {}", g.diff(&d));
        }
        quiet_checks(db, &d, &u, mask);
    };
    for (i, s) in steps.iter().enumerate() {
        if dropped(i as u32) {
            continue;
        }
        match s {
            Step::Op(op) => {
                let res = exec(&db, op);
                unsafe { sim_mix(0x7e5, hash_of(&format!("{res:?}"))) };
                if let Res::Panic(p) = &res {
                    fail!("[panic] {op:?} panicked: {p}");
                }
                if follow {
                    if let Err(m) = g.apply(op, &res) {
                        fail!("[model] {op:?}: {m}");
                    }
                }
            }
            Step::Check => check(&db, &g),
            Step::Reopen(k) => {
                hstat(h::REOPENS, 1);
                nontrivial();
                match which {
                    0 => {}
                    1 => {
                        let res = exec(&db, &Op::Sync);
                        if res != Res::Unit {
                            fail!("[sync] saving the image failed: {res:?}");
                        }
                        drop(db);
                        db = match catch(|| Db::mem_read(IMG)) {
                            Ok(Ok(d)) => d,
                            Ok(Err(e)) => fail!("[open] reading the image failed: {e}"),
                            Err(p) => fail!("[panic] reading the image panicked: {p}"),
                        };
                        check(&db, &g);
                    }
                    _ => {
                        drop(db);
                        kind = *k;
                        tr!("reopen with options {kind}");
                        db = open_ok(kind, "reopening the database");
                        check(&db, &g);
                    }
                }
            }
            Step::Repair => {
                hstat(h::REPAIRS, 1);
                nontrivial();
                drop(db);
                tr!("repair");
                match catch(|| Db::rocks_repair(PATH, kind)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => fail!("[repair] repairing an intact database failed: {e}"),
                    Err(p) => fail!("[panic] repair panicked: {p}"),
                }
                db = open_ok(kind, "opening the repaired database");
                check(&db, &g);
            }
        }
    }
    if job.param(2) == 0 {
        nontrivial();
    }
    check(&db, &g);
    if mask & O_RESUR != 0 {
        let d = dump_ok(&db, &u);
        if let Err(m) = resurrect(&db, &d, &u, A_STRUCT) {
            fail!("[resurrected] {m}");
        }
    }
}

/// C05: particular inputs that are known to be answered wrongly (see
/// known-findings.txt); each is tried, and recognised by its own text.
pub fn probe(job: &Job) {
    let mut r = job.rng(1);
    let kind = *r.pick(&[0u32, 1, 2, 3, 4]);
    set_nops(1);
    job.begin(job.cfg(100_000));
    let db = open_ok(kind, "creating a database");
    let x = 907.3038322028689f64;
    match catch(|| db.float_round_trip(x)) {
        Ok(Ok(y)) if y == Some(x) => {}
        Ok(Ok(y)) => fail!("[float] RocksDB datastore: {x:?} is read back as {y:?}"),
        Ok(Err(e)) => fail!("[float] RocksDB datastore: {x:?}: {e}"),
        Err(p) => fail!("[panic] {p}"),
    }
    nontrivial();
}
