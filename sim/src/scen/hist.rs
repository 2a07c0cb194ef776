//! Histories of calls by one or more threads on one database.
use super::*;
use crate::exec::*;
use crate::gen::*;
use crate::lin::{self, Ev, Fin};
use crate::model::*;
use std::sync::{Arc, Mutex};
use sut::db::Db;

/// Runs the threads' calls and returns what happened. `first` is the number
/// of the first step, for the minimiser.
pub fn run_threads(db: &Arc<Db>, ops: &[Vec<Op>], first: usize) -> Vec<Ev> {
    let evs = Arc::new(Mutex::new(Vec::new()));
    let mut id = first;
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (t, v) in ops.iter().enumerate() {
        let mine: Vec<(usize, Op)> = v.iter().map(|o| { id += 1; (id - 1, o.clone()) }).filter(|x| !dropped(x.0 as u32)).collect();
        let (db, evs) = (db.clone(), evs.clone());
        fs.push(Box::new(move || {
            for (_, op) in mine {
                let start = stamp();
                let res = exec(&db, &op);
                let end = stamp();
                unsafe { sim_mix(0x7e5, hash_of(&format!("{res:?}"))) };
                unsafe { sim_nopoint(1) };
                evs.lock().unwrap().push(Ev { thread: t as u32 + 1, op, res: Some(res), start, end, durable: false, maybe: false });
                unsafe { sim_nopoint(-1) };
            }
        }));
    }
    parallel(fs);
    let mut v = std::mem::take(&mut *evs.lock().unwrap());
    v.sort_by_key(|e| e.start);
    v
}
pub fn hash_of(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// Calls made before anything else, by one thread; checked against the model.
pub fn setup(db: &Db, g: &mut Graph, ops: &[Op], first: usize) {
    for (i, op) in ops.iter().enumerate() {
        if dropped((first + i) as u32) {
            continue;
        }
        let r = exec(db, op);
        if let Err(m) = g.apply(op, &r) {
            fail!("[model] {op:?}: {m}");
        }
    }
}

/// A typical beginning: a few indexes, vertices, edges and properties.
pub fn setup_ops(r: &mut Rng, u: &Uni, n: usize) -> (Vec<Op>, Vec<Sym>) {
    setup_ops_with(r, u, n, 60)
}
pub fn setup_ops_with(r: &mut Rng, u: &Uni, n: usize, index: usize) -> (Vec<Op>, Vec<Sym>) {
    let mut ops = Vec::new();
    let mut indexed = Vec::new();
    for x in &u.names {
        if r.pct(index) {
            ops.push(Op::Index(*x));
            indexed.push(*x);
        }
    }
    let mut g = Gen { r, u, indexed: indexed.clone(), limits: false, max_bulk: 6 };
    for _ in 0..n {
        let op = match g.r.weighted(&[40, 30, 20, 10]) {
            0 => {
                let v = g.vid();
                Op::CreateV(v, g.type_of(v))
            }
            1 => Op::CreateE(g.edge()),
            2 => {
                let (nm, x) = (g.name(), g.val());
                if g.r.pct(60) {
                    Op::SetP(Q::SpecV(vec![g.vid()]), nm, x)
                } else {
                    Op::SetP(Q::SpecE(vec![g.edge()]), nm, x)
                }
            }
            _ => Op::Bulk(g.bulk(true)),
        };
        ops.push(op);
    }
    // Sometimes an index comes late.
    if r.pct(index / 2) {
        let x = *r.pick(&u.names);
        if !indexed.contains(&x) {
            ops.push(Op::Index(x));
            indexed.push(x);
        }
    }
    (ops, indexed)
}

pub fn lin_check(init: &Graph, evs: &[Ev], fin: Fin) {
    hstat(h::OVERLAP, lin::overlaps(evs));
    match lin::check(init, evs, fin, 400_000) {
        lin::Verdict::Yes | lin::Verdict::Unknown => {}
        lin::Verdict::No(m) => {
            // Counting everything cannot report that the disk failed.
            if hard_faults() > 0 {
                let rest: Vec<Ev> = evs.iter().filter(|e| !counts_all(&e.op)).cloned().collect();
                if rest.len() < evs.len() && matches!(lin::check(init, &rest, fin, 400_000), lin::Verdict::Yes) {
                    fail!("[count-error] {m}");
                }
            }
            fail!("[lin] {m}")
        }
    }
}
fn counts_all(o: &Op) -> bool {
    matches!(o, Op::Get(Q::Count(q)) if matches!(**q, Q::AllV | Q::AllE))
}
pub fn panics(evs: &[Ev]) {
    for e in evs {
        if let Some(Res::Panic(p)) = &e.res {
            fail!("[panic] {:?} panicked: {p}", e.op);
        }
    }
}

/// C01: threads on one in-memory database.
pub fn mem_lin(job: &Job) {
    let mut r = job.rng(1);
    let mut u = universe(&mut r, UniOpts { max_ids: 6, max_names: 3, big_values: false });
    let is_hot = r.pct(15);
    if is_hot {
        hot(&mut u);
    }
    let n = r.range(is_hot as usize * 5, 12);
    let (sops, indexed) = setup_ops(&mut r, &u, n);
    let nt = *r.pick(&[2usize, 2, 3, 3, 4]);
    let per = *r.pick(&[2usize, 4, 6, 8]);
    let mix = if is_hot { HOT_MIX } else { *r.pick(MIXES) };
    let mut ops = Vec::new();
    let max_bulk = bulk_cap(&mut r, 5);
    for _ in 0..nt {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: true, max_bulk };
        ops.push((0..g.r.range(1, per)).map(|_| any_op(&mut g, &mix)).collect::<Vec<_>>());
    }
    let span = *r.pick(&[3000u64, 20000, 80000]);
    set_nops(sops.len() + ops.iter().map(|o| o.len()).sum::<usize>());
    job.begin(job.cfg(span));
    let db = Arc::new(Db::mem());
    let mut g = Graph::default();
    setup(&db, &mut g, &sops, 0);
    tr!("--- threads start");
    let evs = run_threads(&db, &ops, sops.len());
    tr!("--- threads done");
    if lin::overlaps(&evs) > 0 {
        nontrivial();
    }
    use super::store::*;
    let mask = job.mask(O_MODEL | O_PANIC | O_STRUCT | O_INDEX);
    if mask & O_PANIC != 0 {
        panics(&evs);
    }
    let fin = dump_ok(&db, &u);
    if mask & O_MODEL != 0 {
        lin_check(&g, &evs, Fin::End(&fin));
    }
    quiet_checks(&db, &fin, &u, mask);
    if mask & O_RESUR != 0 {
        if let Err(m) = resurrect(&db, &fin, &u, A_STRUCT) {
            fail!("[resurrected] {m}");
        }
    }
}
