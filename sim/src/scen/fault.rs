//! Disks that fail: images, errors, and databases being created or opened.
use super::hist::*;
use super::store::*;
use super::*;
use crate::exec::*;
use crate::gen::*;
use crate::lin::{Ev, Fin};
use crate::model::*;
use std::sync::Arc;
use sut::db::Db;

const IMG: &str = "/sim/data/image";

/// Closes a database after disk errors. RocksDB goes on recovering from a full
/// disk in the background; if that got stuck, closing waits for ever, which is
/// reported under a name of its own.
fn close_after_faults<T>(db: T) {
    shm().params[59] = 1;
    drop(db);
    shm().params[59] = 0;
}
/// Draws which disk faults a run has, and how often.
pub fn draw_faults(c: &mut SimCfg, r: &mut Rng, opens: bool) {
    let lvl = *r.pick(&[6_000u32, 30_000, 100_000, 300_000]);
    let mut any = false;
    while !any {
        let mut p = |r: &mut Rng, pct: usize| -> u32 {
            if r.pct(pct) {
                any = true;
                lvl
            } else {
                0
            }
        };
        c.p_eio_write = p(r, 30);
        c.p_enospc = p(r, 25);
        c.p_eio_read = p(r, 25);
        c.p_eio_fsync = p(r, 30);
        c.p_eio_open = if opens { p(r, 25) } else { 0 };
        c.p_eio_rename = p(r, 20);
        c.p_short_write = p(r, 30);
        c.p_short_read = p(r, 30);
        c.p_eintr = p(r, 20);
    }
}
fn is_fault(r: &Res) -> bool {
    matches!(r, Res::Err(ErrK::Other, _))
}
/// Sorts out which calls failed because of the disk: those may have happened
/// or not; failed queries say nothing.
fn sift(evs: Vec<Ev>) -> Vec<Ev> {
    let mut v = Vec::new();
    for mut e in evs {
        if e.res.as_ref().map(is_fault).unwrap_or(false) {
            hstat(h::FAULTED, 1);
            if hard_faults() == 0 {
                fail!("[error] {:?} failed although the disk did not: {:?}", e.op, e.res);
            }
            if matches!(e.op, Op::Get(_)) {
                continue;
            }
            e.maybe = true;
        }
        v.push(e);
    }
    v
}
fn only_changes(evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .filter(|e| !matches!(e.op, Op::Get(_)))
        .cloned()
        .collect()
}

// ---------------------------------------------------------------- images
struct ImgPlan {
    u: Uni,
    ncrash: u32,
    mine: Vec<Vec<Op>>,
    first: usize,
    total: usize,
}
fn img_plan(job: &Job, crash: bool) -> ImgPlan {
    let mut r = job.rng(1);
    let big_values = r.pct(30);
    let u = universe(&mut r, UniOpts { max_ids: 7, max_names: 3, big_values });
    let conc = r.pct(50);
    let ncrash = if crash { *r.pick(&[1u32, 1, 2, 3]) } else { 0 };
    let mix = *r.pick(MIXES);
    let per = *r.pick(&[3usize, 6, 12]);
    let syncs = *r.pick(&[10usize, 25, 50]);
    let (mut first, mut total, mut mine) = (0, 0, Vec::new());
    let max_bulk = bulk_cap(&mut r, 8);
    for e in 0..=ncrash {
        let mut r = job.rng(100 + e as u64);
        let nt = if conc { r.range(2, 3) } else { 1 };
        let mut v = Vec::new();
        for t in 0..nt {
            let mut g = Gen { r: &mut r, u: &u, indexed: u.names.clone(), limits: false, max_bulk };
            let n = g.r.range(1, if conc { per.min(7) } else { per });
            v.push(
                (0..n)
                    .map(|i| {
                        if g.r.pct(syncs) {
                            Op::Sync
                        } else if e == 0 && t == 0 && i < 2 && g.r.pct(50) {
                            Op::Index(*g.r.pick(&g.u.names))
                        } else {
                            match any_op(&mut g, &mix) {
                                Op::CreateVT(t) => Op::CreateV(g.vid(), t),
                                o => o,
                            }
                        }
                    })
                    .collect::<Vec<_>>(),
            );
        }
        let k = v.iter().map(|x| x.len()).sum::<usize>();
        if e < job.epoch {
            first += k;
        }
        if e == job.epoch {
            mine = v;
        }
        total += k;
    }
    ImgPlan { u, ncrash, mine, first, total }
}
fn img_open(what: &str) -> Db {
    match catch(|| Db::mem_read(IMG)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => fail!("[image] {what}: {e}"),
        Err(p) => fail!("[panic] {what}: reading the image panicked: {p}"),
    }
}
/// The graph an image holds; no image is what there is before the first sync.
fn img_graph(u: &Uni, what: &str) -> (Option<Db>, Graph) {
    if !std::path::Path::new(IMG).exists() {
        return (None, Graph::default());
    }
    let db = img_open(what);
    let g = dump_ok(&db, u);
    (Some(db), g)
}
fn mark_synced(evs: &mut [Ev]) -> bool {
    mark_durable(evs);
    evs.iter().any(|e| e.op == Op::Sync && e.res == Some(Res::Unit))
}
fn img_crash(job: &Job, power: bool, faulty: bool) {
    let mask = job.mask(O_MODEL | O_PANIC | O_INDEX | O_STRUCT);
    let p = img_plan(job, true);
    set_nops(p.total);
    let mut er = job.rng(500 + job.epoch as u64);
    let mut c = job.cfg(30_000);
    let last = job.epoch >= p.ncrash;
    if !last {
        c.crash_kind = if power { 2 } else { 1 };
    }
    if faulty && !last {
        draw_faults(&mut c, &mut er, true);
    }
    c.shadow = power as u32;
    c.fsmode = er.below(2) as u32;
    shm().params[60] = job.rng(7).pct(40) as i64;
    let recs = load();
    // Whether an image existed when the previous life began, and its content.
    let had = recs.iter().any(|r| matches!(r, Rec::Note(1, _)));
    let (base, mut evs, _) = since_base(recs);
    job.begin(c);
    if job.epoch == 0 {
        std::fs::create_dir("/sim/data").unwrap();
        // The directory itself is not in question.
        let _ = std::fs::File::open("/sim").and_then(|f| f.sync_all());
        let _ = std::fs::File::open("/sim/data").and_then(|f| f.sync_all());
    } else {
        nontrivial();
    }
    let (db, g) = img_graph(&p.u, "the image cannot be read after the crash");
    if job.epoch > 0 {
        if mask & O_PANIC != 0 {
            panics(&evs);
        }
        if faulty {
            evs = sift(evs);
            if let Some(e) = evs.iter().find(|e| e.maybe && e.op != Op::Sync) {
                fail!("[error] {:?} does not touch the disk but failed: {:?}", e.op, e.res);
            }
        }
        let synced = mark_synced(&mut evs);
        if db.is_none() && (synced || had) {
            fail!("[image] the image has disappeared");
        }
        let base = base.unwrap_or_default();
        // A sync that was under way may or may not have replaced the image.
        lin_check(&base, &evs, Fin::Image(&g));
    }
    if let Some(db) = &db {
        quiet_checks(db, &g, &p.u, mask);
        log(&Rec::Note(1, 0));
    }
    log(&Rec::Base(g.clone()));
    let db = Arc::new(match db {
        Some(d) => d,
        None => Db::mem_create(IMG),
    });
    if !last {
        unsafe { sim_at_crash(er.range(1, *er.clone().pick(&[4usize, 12, 40])) as u64) };
    }
    if !last {
        faults(faulty);
    }
    let evs = run_logged(&db, &p.mine, p.first);
    if !last {
        unsafe { sim_crash() };
    }
    if mask & O_PANIC != 0 {
        panics(&evs);
    }
    // The last life ends in order: the memory itself, a sync, the image.
    let fin = dump_ok(&db, &p.u);
    lin_check(&g, &evs, Fin::End(&fin));
    let r = exec(&db, &Op::Sync);
    if r != Res::Unit {
        fail!("[error] sync failed although the disk did not: {r:?}");
    }
    drop(db);
    let db = img_open("the image cannot be read");
    let g2 = dump_ok(&db, &p.u);
    if g2 != fin {
        fail!("[image] reading the image gives something else: {}", fin.diff(&g2));
    }
    quiet_checks(&db, &g2, &p.u, mask);
}
pub fn img_kill(job: &Job) {
    img_crash(job, false, false)
}
pub fn img_power(job: &Job) {
    img_crash(job, true, false)
}
/// The same on a disk with errors.
pub fn img_fault_crash(job: &Job) {
    img_crash(job, job.rng(77).pct(75), true)
}

/// C09 (and C08): an image on a disk with errors.
pub fn img_fault(job: &Job) {
    let mask = job.mask(O_MODEL | O_PANIC | O_INDEX | O_STRUCT);
    let p = img_plan(job, false);
    set_nops(p.total + 1);
    let mut r = job.rng(9);
    let mut c = job.cfg(30_000);
    draw_faults(&mut c, &mut r, true);
    let cap = if r.pct(30) { Some(r.below(6000) as u64) } else { None };
    shm().params[60] = r.pct(40) as i64;
    job.begin(c);
    std::fs::create_dir("/sim/data").unwrap();
    let mut db = Db::mem_create(IMG);
    let mut g0 = Graph::default();
    // Often there is an image already.
    if r.pct(70) {
        let mut rr = job.rng(11);
        let (sops, _) = setup_ops(&mut rr, &p.u, 8);
        setup(&db, &mut g0, &sops, p.total + 1);
        let res = exec(&db, &Op::Sync);
        if res != Res::Unit {
            fail!("[error] sync failed although the disk did not: {res:?}");
        }
        drop(db);
        // Reading it on a failing disk: an error, or all of it.
        faults(true);
        let mut d = None;
        for _ in 0..3 {
            match catch(|| Db::mem_read(IMG)) {
                Ok(Ok(x)) => {
                    d = Some(x);
                    break;
                }
                Ok(Err(e)) => {
                    hstat(h::FAULTED, 1);
                    if hard_faults() == 0 {
                        fail!("[error] reading the image failed although the disk did not: {e}");
                    }
                }
                Err(p) => fail!("[panic] reading the image panicked: {p}"),
            }
        }
        faults(false);
        db = d.unwrap_or_else(|| img_open("the image cannot be read"));
        let g = dump_ok(&db, &p.u);
        if g != g0 {
            fail!("[image] reading the image gives something else: {}", g0.diff(&g));
        }
    }
    let had = std::path::Path::new(IMG).exists();
    let db = Arc::new(db);
    if let Some(x) = cap {
        unsafe { sim_disk_cap(x) };
    }
    faults(true);
    let evs = run_logged(&db, &p.mine, 0);
    faults(false);
    unsafe { sim_disk_cap(u64::MAX) };
    if hard_faults() > 0 {
        nontrivial();
    }
    if mask & O_PANIC != 0 {
        panics(&evs);
    }
    let mut evs = sift(evs);
    for e in &evs {
        if e.maybe && e.op != Op::Sync {
            fail!("[error] {:?} does not touch the disk but failed: {:?}", e.op, e.res);
        }
    }
    // The memory is what the calls made it.
    let fin = dump_ok(&db, &p.u);
    lin_check(&g0, &evs, Fin::End(&fin));
    quiet_checks(&db, &fin, &p.u, mask);
    // The file is as one of the syncs left it.
    let synced = mark_synced(&mut evs);
    let (idb, ig) = img_graph(&p.u, "the image cannot be read after the disk errors");
    if idb.is_none() && (synced || had) {
        fail!("[image] the image has disappeared");
    }
    // A failed sync has either replaced the image or not.
    lin_check(&g0, &evs, Fin::Image(&ig));
    drop(idb);
    // And now that the disk works again so does a sync.
    let res = exec(&db, &Op::Sync);
    if res != Res::Unit {
        fail!("[error] sync still fails: {res:?}");
    }
    let (_, ig) = img_graph(&p.u, "the image cannot be read");
    if ig != fin {
        fail!("[image] reading the image gives something else: {}", fin.diff(&ig));
    }
}

// ---------------------------------------------------------------- RocksDB
/// C09: a RocksDB database on a disk with errors.
pub fn rocks_fault(job: &Job) {
    let mask = job.mask(O_MODEL | O_PANIC | O_STRUCT | O_INDEX);
    let mut r = job.rng(1);
    let kind = *r.pick(&[0u32, 1, 2, 3, 4, 4, 4]);
    let big = kind >= 2 && r.pct(50);
    let u = universe(&mut r, UniOpts { max_ids: 7, max_names: 3, big_values: big });
    // A larger graph that is mostly read, block by block.
    let reads = kind == 4 && r.pct(60);
    let n = if reads { r.range(20, 60) } else { r.range(2, 16) };
    let (mut sops, indexed) = setup_ops(&mut r, &u, n);
    if reads {
        for v in u.ids.iter().rev() {
            sops.insert(0, Op::CreateV(*v, *r.pick(&u.types)));
        }
    }
    let conc = r.pct(40);
    let mix = if reads { READ_MIX } else { *r.pick(CONC_MIXES) };
    let syncs = if reads { 0 } else { *r.pick(&[0usize, 5, 15]) };
    let per = *r.pick(&[4usize, 10, 20]);
    let nt = if conc { r.range(2, 3) } else { 1 };
    let mut ops = Vec::new();
    let max_bulk = bulk_cap(&mut r, 8);
    for _ in 0..nt {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: false, max_bulk };
        let n = g.r.range(1, if conc { per.min(7) } else { per });
        ops.push(
            (0..n)
                .map(|_| {
                    if g.r.pct(syncs) {
                        Op::Sync
                    } else {
                        crash_op(if conc { narrow_op(&mut g, &mix) } else { any_op(&mut g, &mix) }, &mut g)
                    }
                })
                .collect::<Vec<_>>(),
        );
    }
    let total = sops.len() + ops.iter().map(|o| o.len()).sum::<usize>();
    set_nops(total);
    let mut c = job.cfg(100_000);
    draw_faults(&mut c, &mut r, true);
    if reads && r.pct(80) {
        (c.p_eio_write, c.p_enospc, c.p_eio_fsync, c.p_eio_rename, c.p_eio_open) = (0, 0, 0, 0, 0);
        c.p_eio_read = *r.pick(&[6_000u32, 30_000, 100_000]);
    }
    let cap = if !reads && r.pct(25) { Some(r.below(60_000) as u64) } else { None };
    job.begin(c);
    let mut db = open_ok(kind, "creating a database");
    let mut g = Graph { bulk_overwrites: true, ..Default::default() };
    setup(&db, &mut g, &sops, 0);
    // Data in tables, or in the log only; read through a cold cache.
    if reads || r.pct(50) {
        let res = exec(&db, &Op::Sync);
        if res != Res::Unit {
            fail!("[error] sync failed although the disk did not: {res:?}");
        }
    }
    if r.pct(70) {
        drop(db);
        let mut d = None;
        if r.pct(40) {
            faults(true);
            for _ in 0..3 {
                match catch(|| Db::rocks_kind(PATH, kind)) {
                    Ok(Ok(x)) => {
                        d = Some(x);
                        break;
                    }
                    Ok(Err(e)) => {
                        hstat(h::FAULTED, 1);
                        if hard_faults() == 0 {
                            fail!("[error] opening failed although the disk did not: {e}");
                        }
                    }
                    Err(p) => fail!("[panic] opening the database panicked: {p}"),
                }
            }
            faults(false);
        }
        db = d.unwrap_or_else(|| open_ok(kind, "reopening the database"));
    }
    let db = Arc::new(db);
    if let Some(x) = cap {
        unsafe { sim_disk_cap(x) };
    }
    faults(true);
    let evs = run_logged(&db, &ops, sops.len());
    faults(false);
    unsafe { sim_disk_cap(u64::MAX) };
    if hard_faults() > 0 {
        nontrivial();
    }
    if mask & O_PANIC != 0 {
        panics(&evs);
    }
    let evs = sift(evs);
    // Without further faults everything can be read again.
    let fin = dump_ok(&db, &u);
    if mask & O_MODEL != 0 {
        lin_check(&g, &evs, Fin::End(&fin));
    }
    quiet_checks(&db, &fin, &u, mask);
    close_after_faults(db);
    let db = open_ok(kind, "reopening the database after the disk errors");
    let g2 = dump_ok(&db, &u);
    if mask & O_MODEL != 0 && g2 != fin {
        // Calls that failed may turn out to have happened after all.
        lin_check(&g, &only_changes(&evs), Fin::End(&g2));
    }
    quiet_checks(&db, &g2, &u, mask);
    // It works normally again.
    if let Err(m) = resurrect(&db, &g2, &u, A_STRUCT | A_INDEX) {
        fail!("[after] {m}");
    }
    let res = exec(&db, &Op::Sync);
    if res != Res::Unit {
        fail!("[after] sync fails: {res:?}");
    }
}

/// C09: disk errors, and then the process is killed or the power fails.
pub fn rocks_fault_crash(job: &Job) {
    let mask = job.mask(O_MODEL | O_PANIC | O_STRUCT | O_INDEX);
    let mut r = job.rng(1);
    let kind = *r.pick(&[0u32, 1, 2, 3, 3, 4]);
    let power = r.pct(65);
    let big = kind >= 2 && r.pct(50);
    let u = universe(&mut r, UniOpts { max_ids: 6, max_names: 3, big_values: big });
    let n = r.range(2, 10);
    let (sops, indexed) = setup_ops(&mut r, &u, n);
    let conc = r.pct(30);
    let mix = *r.pick(CONC_MIXES);
    let syncs = *r.pick(&[10usize, 20, 40]);
    let per = *r.pick(&[4usize, 8, 14]);
    let nt = if conc { r.range(2, 3) } else { 1 };
    let mut ops = Vec::new();
    let max_bulk = bulk_cap(&mut r, 6);
    for _ in 0..nt {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: false, max_bulk };
        let n = g.r.range(1, if conc { per.min(6) } else { per });
        ops.push(
            (0..n)
                .map(|_| {
                    if g.r.pct(syncs) {
                        Op::Sync
                    } else {
                        crash_op(if conc { narrow_op(&mut g, &mix) } else { any_op(&mut g, &mix) }, &mut g)
                    }
                })
                .collect::<Vec<_>>(),
        );
    }
    let total = sops.len() + ops.iter().map(|o| o.len()).sum::<usize>();
    set_nops(total);
    let mut c = job.cfg(60_000);
    let last = job.epoch > 0;
    if !last {
        draw_faults(&mut c, &mut r, true);
        c.crash_kind = if power { 2 } else { 1 };
    }
    c.shadow = power as u32;
    c.fsmode = job.rng(3).below(2) as u32;
    let cap = if r.pct(25) { Some(r.below(60_000) as u64) } else { None };
    let early = r.pct(50);
    let at = r.range(1, 2 * total + 10) as u64;
    let resync = r.pct(40);
    let (base, evs, _) = since_base(load());
    job.begin(c);
    if !last {
        let db = open_ok(kind, "creating a database");
        let mut g = Graph { bulk_overwrites: true, ..Default::default() };
        setup(&db, &mut g, &sops, 0);
        let res = exec(&db, &Op::Sync);
        if res != Res::Unit {
            fail!("[error] sync failed although the disk did not: {res:?}");
        }
        log(&Rec::Base(g));
        let db = Arc::new(db);
        if let Some(x) = cap {
            unsafe { sim_disk_cap(x) };
        }
        faults(true);
        if early {
            unsafe { sim_at_crash(at) };
        }
        let _ = run_logged(&db, &ops, sops.len());
        if resync {
            // The disk has recovered: the next sync that succeeds counts.
            faults(false);
            unsafe { sim_disk_cap(u64::MAX) };
            for i in 0..2 {
                let _ = exec_logged(&db, &Op::Sync, 1, (total + i) as u32);
            }
        }
        unsafe { sim_crash() };
    }
    let Some(base) = base else { return };
    if hard_faults() > 0 {
        nontrivial();
    }
    if mask & O_PANIC != 0 {
        panics(&evs);
    }
    let mut evs = sift(evs);
    for e in evs.iter_mut() {
        // Queries were answered from memory; what counts here is what is left.
        if e.op == Op::Sync && e.res != Some(Res::Unit) {
            e.maybe = true;
        }
    }
    if power {
        mark_durable(&mut evs);
    }
    let db = open_ok(kind, "reopening the database after disk errors and a crash");
    let g = dump_ok(&db, &u);
    if mask & O_MODEL != 0 {
        lin_check(&base, &evs, if power { Fin::Prefix(&g) } else { Fin::End(&g) });
    }
    quiet_checks(&db, &g, &u, mask);
    if let Err(m) = resurrect(&db, &g, &u, A_STRUCT | A_INDEX) {
        fail!("[after] {m}");
    }
    let res = exec(&db, &Op::Sync);
    if res != Res::Unit {
        fail!("[after] sync fails: {res:?}");
    }
}

/// C10: crashes and errors while a database is created, opened or repaired.
fn open_crash(job: &Job, power: bool) {
    let mut r = job.rng(1);
    let kind = *r.pick(&[0u32, 1, 2, 3, 4]);
    let u = universe(&mut r, UniOpts { max_ids: 5, max_names: 2, big_values: false });
    let lives = r.range(1, 5) as u32;
    let build = r.below(lives as usize + 1) as u32; // the life that writes the data, if any
    let n = r.range(1, 14);
    let (sops, _) = setup_ops(&mut r, &u, n);
    set_nops(sops.len());
    let mut er = job.rng(300 + job.epoch as u64);
    let last = job.epoch >= lives;
    let repair_ok = true;
    // What this life tries first, and how it ends.
    let repairs = repair_ok && er.pct(30);
    let faulty = er.pct(40);
    let mut c = job.cfg(60_000);
    c.shadow = power as u32;
    c.fsmode = er.below(2) as u32;
    if !last {
        c.crash_kind = if power { 2 } else { 1 };
    }
    if faulty && !last {
        draw_faults(&mut c, &mut er, true);
        c.p_eio_stat = *er.pick(&[0, 0, 300_000]);
    }
    let recs = load();
    let stat_only = faulty && !last && er.pct(50) && recs.iter().any(|x| matches!(x, Rec::Note(3, _)));
    if stat_only {
        (c.p_eio_write, c.p_enospc, c.p_eio_fsync, c.p_eio_rename, c.p_eio_open) = (0, 0, 0, 0, 0);
        (c.p_eio_read, c.p_short_write, c.p_short_read, c.p_eintr) = (0, 0, 0, 0);
        c.p_eio_stat = 500_000;
    }
    let mut data: Option<Graph> = None; // what must be there
    let mut open_calls = false;
    let mut again = false; // a repair was interrupted
    let mut begun = false; // the data has been written in part
    for x in &recs {
        match x {
            Rec::Base(g) => {
                data = Some(g.clone());
                open_calls = false;
            }
            Rec::Note(2, _) => open_calls = true,
            Rec::Note(3, _) => again = true,
            Rec::Note(4, _) => again = again && power, // it may look interrupted again
            Rec::Note(5, _) => begun = true,
            _ => {}
        }
    }
    let empty = Graph { bulk_overwrites: true, ..Default::default() };
    // The crash came while the data was written: what is there is what some
    // number of the calls left.
    let mut partly: Vec<Graph> = Vec::new();
    if begun && data.is_none() {
        let mut g = empty.clone();
        partly.push(g.clone());
        for (i, op) in sops.iter().enumerate() {
            if !dropped(i as u32) {
                // Whatever it reports; none of these calls has more results.
                for res in [Res::Bool(true), Res::Bool(false), Res::Unit] {
                    if g.apply(op, &res).is_ok() {
                        break;
                    }
                }
                partly.push(g.clone());
            }
        }
    }
    let expect = data.clone().unwrap_or(empty.clone());
    let _ = open_calls;
    job.begin(c);
    if job.epoch > 0 {
        nontrivial();
    }
    let hot = if faulty { er.range(1, 200) } else { *er.pick(&[20usize, 60, 160]) };
    let crash_in_open = er.pct(70);
    if !last && crash_in_open {
        unsafe { sim_at_crash(er.range(1, hot) as u64) };
    }
    let _ = again;
    if repairs && job.epoch > 0 && data.is_some() {
        log(&Rec::Note(3, 0));
        hstat(h::REPAIRS, 1);
        // No disk errors here: a repair keeps what it can read.
        match catch(|| Db::rocks_repair(PATH, kind)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => fail!("[open] repair failed: {e}"),
            Err(p) => fail!("[panic] repair panicked: {p}"),
        }
        log(&Rec::Note(4, 0));
    }
    let tries = if faulty && !last && (!again || stat_only) { er.range(1, 3) } else { 0 };
    let check = |db: &Db, what: &str| {
        let g = dump_ok(db, &u);
        if partly.is_empty() {
            if g != expect {
                fail!("[lost] {what}: {}", expect.diff(&g));
            }
        } else if !partly.contains(&g) {
            fail!("[lost] {what}: there is what no number of the calls leaves; after all of them: {}", partly[partly.len() - 1].diff(&g));
        }
        quiet_checks(db, &g, &u, O_STRUCT | O_INDEX);
    };
    for _ in 0..tries {
        faults(true);
        let res = catch(|| Db::rocks_kind(PATH, kind));
        faults(false);
        match res {
            Ok(Ok(db)) => check(&db, "opened on a failing disk"),
            Ok(Err(e)) => {
                hstat(h::FAULTED, 1);
                if hard_faults() == 0 {
                    fail!("[error] opening failed although the disk did not: {e}");
                }
            }
            Err(p) => fail!("[panic] opening the database panicked: {p}"),
        }
    }
    let db = open_ok(kind, if job.epoch == 0 { "creating the database" } else { "opening the database after the crash" });
    hstat(h::REOPENS, 1);
    check(&db, "after opening");
    let mut now = None;
    if !partly.is_empty() {
        let g = dump_ok(&db, &u);
        let res = exec(&db, &Op::Sync);
        if res != Res::Unit {
            fail!("[error] sync failed: {res:?}");
        }
        log(&Rec::Base(g.clone()));
        now = Some(g);
    }
    if job.epoch == build && data.is_none() && now.is_none() {
        let mut g = empty.clone();
        let dies = !last && !(power && kind == 4) && er.pct(60);
        if dies {
            log(&Rec::Note(5, 0));
            let around = er.range(1, 3 * sops.len() + 2) as u64;
            unsafe { sim_at_crash(around) };
        }
        // Everything acknowledged; forced to disk where power may fail.
        for (i, op) in sops.iter().enumerate() {
            if dropped(i as u32) {
                continue;
            }
            if !dies {
                unsafe { sim_at_crash(1 << 40) };
            }
            let res = exec(&db, op);
            if let Err(m) = g.apply(op, &res) {
                fail!("[model] {op:?}: {m}");
            }
        }
        if power || er.pct(40) {
            let res = exec(&db, &Op::Sync);
            if res != Res::Unit {
                fail!("[error] sync failed: {res:?}");
            }
        }
        log(&Rec::Base(g));
    }
    // Others who try to open or repair it meanwhile get an error, and harm
    // nothing.
    let rivals = er.pct(30);
    if rivals {
        if !last && er.pct(40) {
            unsafe { sim_at_crash(er.range(1, 20) as u64) };
        }
        let before = dump_ok(&db, &u);
        let todo: Vec<bool> = (0..er.range(1, 3)).map(|_| er.pct(50)).collect();
        let hs: Vec<_> = todo
            .into_iter()
            .map(|repair| {
                std::thread::spawn(move || {
                    let res = if repair { catch(|| Db::rocks_repair(PATH, kind)) } else { catch(|| Db::rocks_kind(PATH, kind).map(|_| ())) };
                    let what = if repair { "repairing" } else { "opening" };
                    match res {
                        Ok(Ok(())) => fail!("[rival] {what} a database that is open succeeded"),
                        Ok(Err(_)) => {}
                        Err(p) => fail!("[panic] {what} a database that is open panicked: {p}"),
                    }
                })
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        let g = dump_ok(&db, &u);
        if g != before {
            fail!("[rival] a rival that got an error changed the database: {}", before.diff(&g));
        }
        if !last {
            unsafe { sim_at_crash(1 << 40) };
        }
    }
    if last {
        drop(db);
        let db = open_ok(kind, "reopening the database");
        let mut g = now.or(data).unwrap_or(empty);
        if job.epoch == build {
            g = dump_ok(&db, &u);
        }
        if let Err(m) = resurrect(&db, &g, &u, A_STRUCT | A_INDEX) {
            fail!("[after] {m}");
        }
        return;
    }
    // End the life: by closing it first, or just so.
    if er.pct(50) {
        unsafe { sim_at_crash(er.range(1, 12) as u64) };
        drop(db);
    }
    unsafe { sim_crash() };
}
pub fn open_kill(job: &Job) {
    open_crash(job, false)
}
pub fn open_power(job: &Job) {
    open_crash(job, true)
}
