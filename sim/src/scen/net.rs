//! C11, C12, C13: clients and the server over the simulated network.
use super::hist::*;
use super::store::*;
use super::*;
use crate::exec::*;
use crate::gen::*;
use crate::lin::{self, Ev, Fin};
use crate::model::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use sut::db::Db;
use sut::net::{self, Ending, Part, Remote, Server};

/// A network that is slow and fragmenting but never breaks.
pub fn slow_net(c: &mut SimCfg, r: &mut Rng) {
    c.net_lat_us = *r.pick(&[5u32, 50, 1_000, 20_000]);
    c.net_jit_us = *r.pick(&[0u32, 0, 100, 5_000]);
    c.net_seg = *r.pick(&[16384u32, 16384, 1460, 100, 7]);
    c.net_sndbuf = *r.pick(&[65536u32, 65536, 8192, 1500]);
    c.p_net_short_read = *r.pick(&[0u32, 0, 50_000, 400_000]);
    c.p_net_short_write = *r.pick(&[0u32, 0, 50_000, 400_000]);
}

/// Each thread is one client. Returns what the calls returned; `logged`
/// keeps them for after a crash.
pub fn run_clients(cs: Vec<Remote>, ops: &[Vec<Op>], first: usize, logged: bool, also: Vec<Box<dyn FnOnce() + Send>>) -> Vec<Ev> {
    let evs = Arc::new(Mutex::new(Vec::new()));
    let mut id = first;
    let mut fs = also;
    for (t, (v, c)) in ops.iter().zip(cs).enumerate() {
        let mine: Vec<(usize, Op)> = v.iter().map(|o| { id += 1; (id - 1, o.clone()) }).filter(|x| !dropped(x.0 as u32)).collect();
        let evs = evs.clone();
        fs.push(Box::new(move || {
            let mut c = c;
            for (i, op) in mine {
                let e = call(&mut c, op, t as u32 + 1, i as u32, logged);
                unsafe { sim_nopoint(1) };
                evs.lock().unwrap().push(e);
                unsafe { sim_nopoint(-1) };
            }
        }));
    }
    parallel(fs);
    let mut v = std::mem::take(&mut *evs.lock().unwrap());
    v.sort_by_key(|e| e.start);
    v
}
pub fn call(c: &mut Remote, op: Op, thread: u32, id: u32, logged: bool) -> Ev {
    let start = stamp();
    if logged {
        log(&Rec::Start { id, thread, op: op.clone(), at: start });
    }
    let res = exec_remote(c, &op);
    let end = stamp();
    if logged {
        log(&Rec::End { id, res: res.clone(), at: end });
    }
    unsafe { sim_mix(0x7e5, hash_of(&format!("{res:?}"))) };
    Ev { thread, op, res: Some(res), start, end, durable: false, maybe: false }
}
/// A call that failed on the way may have happened, may happen later or never.
pub fn unknown(evs: Vec<Ev>) -> Vec<Ev> {
    evs.into_iter()
        .filter_map(|mut e| match &e.res {
            Some(Res::Err(ErrK::Net, _)) | None => {
                if e.op.is_read() && e.op != Op::Sync {
                    return None;
                }
                e.res = None;
                e.end = u64::MAX;
                Some(e)
            }
            _ => Some(e),
        })
        .collect()
}

pub fn client(rt: &tokio_rt::Runtime, timeout: u64, window: u32) -> Remote {
    match Remote::connect(rt.handle(), Duration::from_secs(timeout), window) {
        Ok(c) => c,
        Err(e) => fail!("[connect] connecting to the server failed: {e:?}"),
    }
}
use sut::net::tokio_rt;

/// C11: several clients, a network that delays and fragments.
pub fn grpc_lin(job: &Job) {
    let mut r = job.rng(1);
    let rocks = r.pct(30);
    let kind = *r.pick(&[0u32, 3]);
    let u = universe(&mut r, UniOpts { max_ids: 6, max_names: 3, big_values: false });
    let n = r.range(0, 10);
    let (sops, indexed) = setup_ops(&mut r, &u, n);
    let nt = *r.pick(&[1usize, 2, 2, 3]);
    let per = *r.pick(&[2usize, 4, 6, 8]);
    let mix = *r.pick(if rocks { CONC_MIXES } else { MIXES });
    let max_bulk = bulk_cap(&mut r, 5);
    let mut ops = Vec::new();
    for _ in 0..nt {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: !rocks || nt == 1, max_bulk };
        ops.push((0..g.r.range(1, per)).map(|_| if rocks && nt > 1 { narrow_op(&mut g, &mix) } else { any_op(&mut g, &mix) }).collect::<Vec<_>>());
    }
    // Clients on one connection, or on one each.
    let shared = r.pct(30);
    let (sw, cw) = (*r.pick(&[1usize, 2, 3]), *r.pick(&[1usize, 2]));
    let window = *r.pick(&[0u32, 0, 100, 5000]);
    set_nops(sops.len() + ops.iter().map(|o| o.len()).sum::<usize>());
    let mut c = job.cfg(*r.pick(&[50_000u64, 300_000]));
    slow_net(&mut c, &mut r);
    job.begin(c);
    let db = if rocks { open_ok(kind, "creating a database") } else { Db::mem() };
    let mut g = Graph { bulk_overwrites: rocks, ..Default::default() };
    setup(&db, &mut g, &sops, 0);
    let srv = Server::start(&db, sw, None);
    let rt = net::runtime(cw, "cli");
    let first = client(&rt, 3000, window);
    let cs = (0..nt).map(|i| if shared || i == 0 { first.clone() } else { client(&rt, 3000, window) }).collect();
    tr!("--- clients start");
    let evs = run_clients(cs, &ops, sops.len(), false, vec![]);
    tr!("--- clients done");
    if lin::overlaps(&evs) > 0 {
        nontrivial();
    }
    panics(&evs);
    for e in &evs {
        if let Some(Res::Err(ErrK::Net, m)) = &e.res {
            fail!("[net-error] {:?} failed on an intact network: {m}", e.op);
        }
    }
    if let Some(s) = srv.stopped.lock().unwrap().as_ref() {
        fail!("[stopped] the server stopped: {s}");
    }
    let fin = dump_ok(&db, &u);
    lin_check(&g, &evs, Fin::End(&fin));
}

/// A bulk insertion of many vertices that nothing else touches.
pub fn wide_bulk(g: &mut Gen, base: u128) -> Op {
    let n = *g.r.pick(&[3usize, 20, 99, 101, 150, 300]);
    wide_bulk_of(g, base, n, false)
}
/// `hub`: all edges are ones of the first vertex.
pub fn wide_bulk_of(g: &mut Gen, base: u128, n: usize, hub: bool) -> Op {
    let mut v = Vec::new();
    let t = g.u.types[0];
    for i in 0..n as u128 {
        let id = base + i;
        v.push(Item::V(id, t));
        match g.r.below(4) {
            0 => {
                let (n, x) = (g.name(), g.val());
                v.push(Item::VP(id, n, x));
            }
            1 | 2 if hub => {
                let e = if g.r.pct(50) { (id, g.u.etypes[0], base) } else { (base, g.u.etypes[0], id) };
                v.push(Item::E(e));
                if g.r.pct(30) {
                    let (n, x) = (g.name(), g.val());
                    v.push(Item::EP(e, n, x));
                }
            }
            1 => v.push(Item::E((id, g.u.etypes[0], base + g.r.below(i as usize + 1) as u128))),
            _ => {}
        }
    }
    Op::Bulk(v)
}

/// A network that breaks connections.
pub fn bad_net(c: &mut SimCfg, r: &mut Rng) {
    slow_net(c, r);
    c.p_net_reset = *r.pick(&[0u32, 100_000, 400_000, 800_000]);
    c.p_net_stall = *r.pick(&[0u32, 0, 10_000, 100_000]);
    c.p_net_refuse = *r.pick(&[0u32, 0, 200_000]);
    c.p_net_accept = *r.pick(&[0u32, 0, 0, 100_000]);
}
/// What happens to the network while the clients call: (after ms, resets, partition for ms).
pub fn chaos_plan(r: &mut Rng) -> Vec<(u64, i32, u64)> {
    (0..r.range(0, 4)).map(|_| (*r.pick(&[0u64, 1, 5, 20, 100, 1000]) * r.range(1, 8) as u64, r.range(0, 2) as i32, *r.pick(&[0u64, 0, 10, 1000, 20_000]))).collect()
}
pub fn chaos(plan: Vec<(u64, i32, u64)>) -> Box<dyn FnOnce() + Send> {
    Box::new(move || {
        for (ms, resets, part) in plan {
            std::thread::sleep(Duration::from_millis(ms));
            if part > 0 {
                unsafe { sim_net_partition(part * 1_000_000) };
            }
            if resets > 0 {
                unsafe { sim_net_reset(resets) };
            }
        }
    })
}
/// How long a client waits before it gives a call up, in milliseconds.
const PATIENCE: &[u64] = &[1, 3, 10, 50, 400, 5_000, 3_000_000, 3_000_000];

/// A client of another make inserts in bulk and breaks off after some items.
fn foreign_bulk(items: &[Item], keep: usize, pause: u64, end: Ending) -> (Vec<Part>, Ending) {
    let mut parts: Vec<Part> = items[..keep].iter().map(|i| Part::Msg(net::encode_item(bulk_item(i)))).collect();
    if pause > 0 {
        parts.push(Part::Wait(pause));
    }
    (parts, end)
}
/// What is no message of a bulk insert: cut off, too large, of no kind,
/// of another kind.
fn bad_frame(r: &mut Rng) -> Part {
    match r.below(6) {
        0 => Part::Bytes(vec![0, 0, 0, 0, 50, 1, 2]),
        1 => Part::Bytes(vec![0, 0x7f, 0xff, 0xff, 0xff, 1, 2, 3]),
        2 => Part::Bytes(vec![9, 9, 9, 9, 9, 9, 9]),
        3 => Part::Bytes(vec![1, 0, 0, 0, 2, 1, 2]),
        4 => Part::Msg(vec![0xff; *r.pick(&[1usize, 3, 100])]),
        _ => Part::Msg(bad_item(r)),
    }
}

/// C12: connections that break, stall and are given up at any moment.
pub fn grpc_fault(job: &Job) {
    let mut r = job.rng(1);
    let rocks = r.pct(20);
    let kind = *r.pick(&[0u32, 3]);
    let big = r.pct(20);
    let u = universe(&mut r, UniOpts { max_ids: 5, max_names: 2, big_values: big });
    let n = r.range(0, 8);
    let (sops, indexed) = setup_ops(&mut r, &u, n);
    let nt = *r.pick(&[1usize, 2, 3]);
    let per = *r.pick(&[2usize, 4, 7]);
    let mix = *r.pick(if rocks { CONC_MIXES } else { MIXES });
    let wide = *r.pick(&[0usize, 10, 30]);
    let max_bulk = bulk_cap(&mut r, 5);
    let mut ops = Vec::new();
    for t in 0..nt {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: false, max_bulk };
        ops.push(
            (0..g.r.range(1, per))
                .map(|i| {
                    if g.r.pct(wide) {
                        wide_bulk(&mut g, ((t * 100 + i + 1) as u128) << 64)
                    } else {
                        let op = if rocks && nt > 1 { narrow_op(&mut g, &mix) } else { any_op(&mut g, &mix) };
                        crash_op(op, &mut g)
                    }
                })
                .collect::<Vec<_>>(),
        );
    }
    let shared = r.pct(40);
    let (sw, cw) = (*r.pick(&[1usize, 2, 3]), *r.pick(&[1usize, 2]));
    let window = *r.pick(&[0u32, 0, 100, 5000]);
    let patience: Vec<u64> = (0..nt).map(|_| *r.pick(PATIENCE)).collect();
    let plan = chaos_plan(&mut r);
    // Another client, which breaks its bulk inserts off.
    let mut breaks = Vec::new();
    if r.pct(50) {
        for i in 0..r.range(1, 3) {
            let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: false, max_bulk };
            let op = if g.r.pct(70) { wide_bulk(&mut g, ((900 + i) as u128) << 64) } else { Op::Bulk(g.bulk(true)) };
            let Op::Bulk(items) = &op else { unreachable!() };
            let keep = r.range(0, items.len());
            let end = *r.pick(&[Ending::Reset(8), Ending::Reset(8), Ending::Reset(0), Ending::Reset(2), Ending::Close, Ending::Hold(50)]);
            let mut f = foreign_bulk(items, keep, *r.pick(&[0u64, 1, 20, 200]), end);
            if r.pct(35) {
                // It does not break off, but goes on with what is no item.
                f.0.push(bad_frame(&mut r));
                if r.pct(30) {
                    f.0.extend(items[keep..].iter().map(|i| Part::Msg(net::encode_item(bulk_item(i)))));
                }
                f.1 = Ending::Finish;
            }
            breaks.push((op, f));
        }
    }
    set_nops(sops.len() + ops.iter().map(|o| o.len()).sum::<usize>());
    let mut c = job.cfg(*r.pick(&[50_000u64, 300_000]));
    bad_net(&mut c, &mut r);
    c.time_cap = 40_000 * 1_000_000_000;
    job.begin(c);
    let db = if rocks { open_ok(kind, "creating a database") } else { Db::mem() };
    let mut g = Graph { bulk_overwrites: rocks, ..Default::default() };
    setup(&db, &mut g, &sops, 0);
    let srv = Server::start(&db, sw, None);
    let rt = net::runtime(cw, "cli");
    let first = client(&rt, 3000, window);
    let mut cs: Vec<Remote> = (0..nt).map(|i| if shared || i == 0 { first.clone() } else { client(&rt, 3000, window) }).collect();
    for (c, p) in cs.iter_mut().zip(&patience) {
        c.timeout = Duration::from_millis(*p);
    }
    // The HTTP/2 library's client spins when it is dropped with bytes unsent.
    let kept = cs.clone();
    tr!("--- clients start");
    faults(true);
    let mut also = vec![chaos(plan)];
    let broken = Arc::new(Mutex::new(Vec::new()));
    if !breaks.is_empty() {
        let (h, out) = (rt.handle().clone(), broken.clone());
        also.push(Box::new(move || {
            for (op, (parts, end)) in breaks {
                let start = stamp();
                tr!("foreign {op:?} breaks off after {} parts: {end:?}", parts.len());
                let s = net::foreign_call(&h, "BulkInsert", parts, end, true);
                tr!("foreign bulk returned {s:?}");
                unsafe { sim_nopoint(1) };
                out.lock().unwrap().push(Ev { thread: 50, op, res: None, start, end: u64::MAX, durable: false, maybe: false });
                unsafe { sim_nopoint(-1) };
            }
        }));
    }
    let mut evs = run_clients(cs, &ops, sops.len(), false, also);
    faults(false);
    tr!("--- clients done");
    panics(&evs);
    if !broken.lock().unwrap().is_empty() {
        nontrivial();
    }
    evs.extend(broken.lock().unwrap().drain(..));
    evs.sort_by_key(|e| e.start);
    for e in &evs {
        if let Some(Res::Err(ErrK::Net, m)) = &e.res {
            nontrivial();
            if m == "Timeout" && patience[e.thread as usize - 1] > 2_000_000 {
                fail!("[hang] {:?} had no answer after 3000 s", e.op);
            }
        }
    }
    let mut evs = unknown(evs);
    after_faults(&db, &srv, &u, &mut evs);
    rt.shutdown_background();
    drop((first, kept));
    srv.rt.shutdown_timeout(Duration::from_secs(1000));
    let fin = dump_ok(&db, &u);
    lin_check(&g, &evs, Fin::End(&fin));
}

/// C12: vertices whose ids the server chooses: none is created twice by one
/// call, whatever happens to the connection, and those acknowledged are there.
pub fn grpc_anon(job: &Job) {
    let mut r = job.rng(1);
    let rocks = r.pct(25);
    let kind = *r.pick(&[0u32, 3]);
    let u = universe(&mut r, UniOpts { max_ids: 3, max_names: 1, big_values: false });
    let nt = *r.pick(&[1usize, 1, 2, 3]);
    let most = *r.pick(&[3usize, 8]);
    let per: Vec<usize> = (0..nt).map(|_| r.range(1, most)).collect();
    let shared = r.pct(40);
    let (sw, cw) = (*r.pick(&[1usize, 2]), *r.pick(&[1usize, 2]));
    let window = *r.pick(&[0u32, 0, 100]);
    let patience: Vec<u64> = (0..nt).map(|_| *r.pick(PATIENCE)).collect();
    let plan = chaos_plan(&mut r);
    set_nops(per.iter().sum());
    let mut c = job.cfg(*r.pick(&[50_000u64, 300_000]));
    bad_net(&mut c, &mut r);
    c.time_cap = 40_000 * 1_000_000_000;
    job.begin(c);
    let db = if rocks { open_ok(kind, "creating a database") } else { Db::mem() };
    let srv = Server::start(&db, sw, None);
    let rt = net::runtime(cw, "cli");
    let first = client(&rt, 3000, window);
    let mut cs: Vec<Remote> = (0..nt).map(|i| if shared || i == 0 { first.clone() } else { client(&rt, 3000, window) }).collect();
    for (c, p) in cs.iter_mut().zip(&patience) {
        c.timeout = Duration::from_millis(*p);
    }
    let kept = cs.clone();
    let out = Arc::new(Mutex::new(vec![(Vec::<Vid>::new(), 0usize); nt]));
    let mut id = 0u32;
    let mut fs = vec![chaos(plan)];
    faults(true);
    for (t, c) in cs.into_iter().enumerate() {
        let mine: Vec<u32> = (0..per[t]).map(|_| { id += 1; id - 1 }).filter(|i| !dropped(*i)).collect();
        let out = out.clone();
        fs.push(Box::new(move || {
            let mut c = c;
            let mut got: Vec<Vid> = Vec::new();
            let mut failed = 0;
            for _ in mine {
                let e = call(&mut c, Op::CreateVT(sym(["anon-0", "anon-1", "anon-2"][t])), t as u32 + 1, 0, false);
                match e.res {
                    Some(Res::Id(i)) => got.push(i),
                    Some(Res::Err(ErrK::Net, _)) => {
                        nontrivial();
                        failed += 1;
                    }
                    x => fail!("[result] create_vertex_from_type gave {x:?}"),
                }
                if !got.is_empty() {
                    if let Some(Res::Outs(v)) = call(&mut c, Op::Get(Q::SpecV(got.clone())), t as u32 + 1, 0, false).res {
                        let v: Vec<Out> = v;
                        if !matches!(&v[..], [Out::V(v)] if v.len() == got.len()) {
                            fail!("[lost] of the vertices {got:x?}, just created, only {v:x?} are there");
                        }
                    }
                }
            }
            unsafe { sim_nopoint(1) };
            out.lock().unwrap()[t] = (got, failed);
            unsafe { sim_nopoint(-1) };
        }));
    }
    parallel(fs);
    faults(false);
    tr!("--- clients done");
    let mut evs = Vec::new();
    after_faults(&db, &srv, &u, &mut evs);
    rt.shutdown_background();
    drop((first, kept));
    srv.rt.shutdown_timeout(Duration::from_secs(1000));
    let fin = dump_ok(&db, &u);
    for (t, (got, failed)) in out.lock().unwrap().iter().enumerate() {
        let ty = sym(["anon-0", "anon-1", "anon-2"][t]);
        let there: Vec<Vid> = fin.v.iter().filter(|v| *v.1 == ty).map(|v| *v.0).collect();
        let mut ids = got.clone();
        ids.sort();
        ids.dedup();
        if ids.len() != got.len() {
            fail!("[id-twice] client {t} was given one id twice: {got:x?}");
        }
        if let Some(i) = ids.iter().find(|i| !there.contains(i)) {
            fail!("[lost] client {t} created vertex {i:x}, which is not there");
        }
        if there.len() > ids.len() + failed {
            fail!("[twice] client {t} had {} vertices created and {failed} calls failed, but there are {} vertices: {there:x?}", ids.len(), there.len());
        }
    }
}

/// Faults have stopped: a new client is served, and promptly.
fn after_faults(db: &Db, srv: &Server, u: &Uni, evs: &mut Vec<Ev>) {
    let _ = db;
    if let Some(s) = srv.stopped.lock().unwrap().as_ref() {
        fail!("[stopped] the server stopped: {s}");
    }
    // Stalled bytes still arrive.
    std::thread::sleep(Duration::from_secs(30));
    let rt = net::runtime(1, "new");
    let mut c = client(&rt, 60, 0);
    let mut calls = vec![Op::CreateV(u.ids[0], u.types[0]), Op::Get(Q::SpecV(vec![u.ids[0]])), Op::Bulk(vec![Item::V(1 << 120, u.types[0])]), Op::Sync];
    if !matches!(db, Db::Rocks(_)) {
        calls.push(Op::Get(Q::AllV));
    }
    for op in calls {
        let e = call(&mut c, op, 99, 0, false);
        if let Some(Res::Err(ErrK::Net, m)) = &e.res {
            fail!("[after] faults have stopped, but {:?} by a new client failed: {m}", e.op);
        }
        evs.push(e);
    }
    if let Some(s) = srv.stopped.lock().unwrap().as_ref() {
        fail!("[stopped] the server stopped: {s}");
    }
    rt.shutdown_background();
}

/// Where the plugins' libraries are.
pub fn plugin_glob() -> String {
    let mut p = std::env::current_exe().unwrap();
    p.pop();
    p.push("lib*plug*.so");
    p.to_string_lossy().into_owned()
}
/// Loads the plugins once, before any run, so that runs find them in place.
pub fn preload() {
    let mut dir = std::env::current_exe().unwrap();
    dir.pop();
    for f in ["libsimplug.so", "libindradb_plugin_hello_world.so", "libindradb_plugin_naive_vertex_count.so"] {
        let p = std::ffi::CString::new(dir.join(f).to_string_lossy().as_bytes()).unwrap();
        let h = unsafe { libc::dlopen(p.as_ptr(), libc::RTLD_LAZY) };
        if h.is_null() {
            crate::harness_bug!("{f} cannot be loaded");
        }
    }
}
fn steps(g: &mut Gen, atomic: bool) -> Vec<Step> {
    let n = if atomic { 1 } else { g.r.range(1, 7) };
    let mut v: Vec<Step> = (0..n)
        .map(|_| match g.r.below(if atomic { 8 } else { 17 }) {
            0 => Step::CV(g.vid(), *g.r.pick(&g.u.types)),
            1 => Step::CE(g.edge()),
            2 => Step::Type(g.vid()),
            3 => Step::Sleep(*g.r.pick(&[10u64, 1_000, 100_000])),
            4 => Step::Index(g.name()),
            5 => Step::CountV,
            6 => Step::CountE,
            7 => Step::CE(g.edge()),
            8 | 9 => Step::SetVP(g.vid(), g.name(), g.val()),
            10 => Step::SetEP(g.edge(), g.name(), g.val()),
            11 => Step::DelV(g.vid()),
            12 => Step::DelE(g.edge()),
            13 => Step::DelVP(g.vid(), g.name()),
            14 => Step::All,
            15 => Step::Map(g.r.range(0, 5) as u64, g.r.below(3) as u64),
            _ => Step::VP(g.vid(), g.name()),
        })
        .collect();
    if !atomic && g.r.pct(50) {
        let k = Step::Inc(g.vid(), g.u.names[0]);
        let i = g.r.range(0, v.len());
        v.insert(i, k);
    }
    match g.r.below(10) {
        0 | 1 => v.push(Step::Panic),
        2 => v.push(Step::Fail),
        3 => {
            let i = g.r.range(0, v.len());
            v.insert(i, if g.r.pct(50) { Step::Panic } else { Step::Fail });
            if atomic {
                v.truncate(1);
            }
        }
        _ => {}
    }
    v
}

/// C15: plugins executed through the server beside other calls.
pub fn grpc_plugin(job: &Job) {
    let mut r = job.rng(1);
    let rocks = r.pct(25);
    let kind = *r.pick(&[0u32, 3]);
    let u = universe(&mut r, UniOpts { max_ids: 5, max_names: 2, big_values: false });
    let n = r.range(0, 10);
    let (sops, indexed) = setup_ops(&mut r, &u, n);
    let nt = *r.pick(&[1usize, 2, 2, 3]);
    let per = *r.pick(&[2usize, 4, 6]);
    let mix = *r.pick(if rocks { CONC_MIXES } else { MIXES });
    let max_bulk = bulk_cap(&mut r, 5);
    let mut ops = Vec::new();
    for _ in 0..nt {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: !rocks || nt == 1, max_bulk };
        ops.push(
            (0..g.r.range(1, per))
                .map(|_| match g.r.weighted(&[45, 5, 14, 2, 34]) {
                    0 => {
                        let s = steps(&mut g, rocks && nt > 1);
                        Op::Plug(sym(*g.r.pick(&["script", "script", "another"])), s)
                    }
                    1 => Op::Plug(sym("hello_world"), steps(&mut g, true)),
                    2 => Op::Plug(sym("naive_vertex_count"), vec![]),
                    3 => Op::Plug(sym(*g.r.pick(&["no_such", "hello", "Script"])), vec![]),
                    _ => {
                        if rocks && nt > 1 {
                            narrow_op(&mut g, &mix)
                        } else {
                            any_op(&mut g, &mix)
                        }
                    }
                })
                .collect::<Vec<_>>(),
        );
    }
    let shared = r.pct(30);
    let (sw, cw) = (*r.pick(&[1usize, 2, 3]), *r.pick(&[1usize, 2]));
    let window = *r.pick(&[0u32, 0, 100]);
    // Plugins that take long; nothing that does not need their data waits.
    let slow = r.pct(20) as usize * r.range(1, 4);
    set_nops(sops.len() + ops.iter().map(|o| o.len()).sum::<usize>());
    let mut c = job.cfg(*r.pick(&[50_000u64, 300_000]));
    slow_net(&mut c, &mut r);
    c.time_cap = 60_000 * 1_000_000_000;
    job.begin(c);
    let db = if rocks { open_ok(kind, "creating a database") } else { Db::mem() };
    let mut g = Graph { bulk_overwrites: rocks, ..Default::default() };
    setup(&db, &mut g, &sops, 0);
    let srv = Server::start(&db, sw, Some(plugin_glob()));
    let rt = net::runtime(cw, "cli");
    let first = client(&rt, 30_000, window);
    let cs = (0..nt).map(|i| if shared || i == 0 { first.clone() } else { client(&rt, 30_000, window) }).collect();
    let mut also: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..slow {
        let mut c = first.clone();
        also.push(Box::new(move || {
            let r = exec_remote(&mut c, &Op::Plug(sym("script"), vec![Step::Sleep(3_000_000_000)]));
            if !matches!(&r, Res::Json(v) if &**v == "[null]") {
                fail!("[slow] a plugin that sleeps gave {r:?}");
            }
        }));
    }
    if slow > 0 && rocks {
        // Other plugins that need nothing the sleepers hold.
        let mut c = first.clone();
        let what: Vec<(&str, Vec<Step>)> = vec![("script", vec![]), ("another", vec![]), ("naive_vertex_count", vec![]), ("script", vec![Step::Type(u.ids[0]), Step::CountV])];
        also.push(Box::new(move || {
            c.timeout = Duration::from_secs(600);
            for (n, s) in what {
                std::thread::sleep(Duration::from_secs(20));
                let r = exec_remote(&mut c, &Op::Plug(sym(n), s));
                if !matches!(r, Res::Json(_)) {
                    fail!("[blocked] plugin {n} gave {r:?} while other plugins sleep");
                }
            }
        }));
    }
    if slow > 0 {
        let mut c = first.clone();
        let h = rt.handle().clone();
        also.push(Box::new(move || {
            c.timeout = Duration::from_secs(600);
            for i in 0..4 {
                std::thread::sleep(Duration::from_secs(20));
                if let Err(e) = c.ping() {
                    fail!("[blocked] ping failed while plugins run: {e:?}");
                }
                if i == 2 {
                    match Remote::connect(&h, Duration::from_secs(600), 0) {
                        Ok(mut c) => {
                            if let Err(e) = c.ping() {
                                fail!("[blocked] ping failed while plugins run: {e:?}");
                            }
                        }
                        Err(e) => fail!("[blocked] connecting failed while plugins run: {e:?}"),
                    }
                }
            }
        }));
    }
    tr!("--- clients start");
    let evs = run_clients(cs, &ops, sops.len(), false, also);
    tr!("--- clients done");
    if lin::overlaps(&evs) > 0 {
        nontrivial();
    }
    panics(&evs);
    for e in &evs {
        if let Some(Res::Err(ErrK::Net, m)) = &e.res {
            if !matches!(e.op, Op::Plug(..)) || !m.starts_with("status ") {
                fail!("[net-error] {:?} failed on an intact network: {m}", e.op);
            }
        }
    }
    if let Some(s) = srv.stopped.lock().unwrap().as_ref() {
        fail!("[stopped] the server stopped: {s}");
    }
    let fin = dump_ok(&db, &u);
    lin_check(&g, &evs, Fin::End(&fin));
    quiet_checks(&db, &fin, &u, O_STRUCT | O_INDEX);
}

/// Hand-made protobuf.
mod pb {
    fn varint(mut n: u64) -> Vec<u8> {
        let mut v = Vec::new();
        while n >= 128 {
            v.push(n as u8 | 128);
            n >>= 7;
        }
        v.push(n as u8);
        v
    }
    /// A field that holds bytes, text or a message.
    pub fn len(tag: u64, b: &[u8]) -> Vec<u8> {
        let mut v = varint(tag << 3 | 2);
        v.extend(varint(b.len() as u64));
        v.extend(b);
        v
    }
    pub fn int(tag: u64, n: u64) -> Vec<u8> {
        let mut v = varint(tag << 3);
        v.extend(varint(n));
        v
    }
    pub fn id(n: u128) -> Vec<u8> {
        len(1, &n.to_be_bytes())
    }
    pub fn text(s: &str) -> Vec<u8> {
        len(1, s.as_bytes())
    }
    pub fn cat(p: &[Vec<u8>]) -> Vec<u8> {
        p.concat()
    }
}
/// An invalid identifier, uuid or JSON.
fn bad_ident(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => pb::text(&"x".repeat(256)),
        1 => pb::text(*r.pick(&["a b", "a/b", "\0", "a.b", "\n"])),
        2 => pb::len(1, &[0xff, 0xfe]),
        _ => pb::text(&"long".repeat(10_000)),
    }
}
fn bad_id(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 15, 17, 36, 1000]);
    pb::len(1, &vec![7; n])
}
fn bad_json(r: &mut Rng) -> Vec<u8> {
    pb::text(*r.pick(&["", "{", "nul", "[1,]", "\"", "1 2", "{\"a\":}", "tru\u{e9}", "1e999"]))
}
fn bad_vertex(r: &mut Rng) -> Vec<u8> {
    let good = |r: &mut Rng| pb::len(1, &pb::id(r.below(9) as u128));
    match r.below(4) {
        0 => vec![],
        1 => good(r),
        2 => pb::cat(&[good(r), pb::len(2, &bad_ident(r))]),
        _ => pb::cat(&[pb::len(1, &bad_id(r)), pb::len(2, &pb::text("t"))]),
    }
}
fn bad_edge(r: &mut Rng) -> Vec<u8> {
    let a = pb::len(1, &pb::id(1));
    let t = pb::len(2, &pb::text("t"));
    let b = pb::len(3, &pb::id(2));
    match r.below(6) {
        0 => pb::cat(&[a, t]),
        1 => pb::cat(&[t, b]),
        2 => pb::cat(&[a, b]),
        3 => pb::cat(&[pb::len(1, &bad_id(r)), t, b]),
        4 => pb::cat(&[a, pb::len(2, &bad_ident(r)), b]),
        _ => pb::cat(&[a, t, pb::len(3, &bad_id(r))]),
    }
}
/// A query that no server may carry out.
fn bad_query(r: &mut Rng, depth: usize) -> Vec<u8> {
    let name = pb::len(1, &pb::text("n"));
    let all_v = pb::len(1, &[]);
    let count = pb::len(15, &pb::len(1, &all_v));
    if depth > 0 && r.pct(60) {
        let q = bad_query(r, depth - 1);
        let i = pb::len(1, &q);
        return match r.below(6) {
            0 => pb::len(10, &i),
            1 => pb::len(11, &i),
            2 => pb::len(12, &pb::cat(&[i, pb::len(2, &pb::text("n"))])),
            3 => pb::len(13, &pb::cat(&[i, pb::len(2, &pb::text("n")), pb::len(3, &pb::text("1"))])),
            4 => pb::len(14, &i),
            _ => pb::len(15, &i),
        };
    }
    match r.below(16) {
        0 => vec![],
        1 => pb::len(2, &pb::len(2, &bad_ident(r))),
        2 => pb::len(2, &pb::len(3, &bad_id(r))),
        3 => pb::len(3, &pb::len(1, &bad_id(r))),
        4 => pb::len(4, &[]),
        5 => pb::len(5, &pb::cat(&[name.clone(), pb::len(2, &bad_json(r))])),
        6 => pb::len(5, &name),
        7 => pb::len(7, &pb::len(1, &bad_edge(r))),
        8 => pb::len(9, &pb::cat(&[name, pb::len(2, &bad_json(r))])),
        9 => pb::len(10, &[]),
        // Pipes from a number, properties of a number, the number of a number.
        10 => pb::len(10, &pb::len(1, &count)),
        11 => pb::len(11, &pb::len(1, &count)),
        12 => pb::len(15, &pb::len(1, &count)),
        13 => pb::len(13, &pb::cat(&[pb::len(1, &all_v), pb::len(2, &pb::text("n"))])),
        14 => pb::len(12, &pb::cat(&[pb::len(1, &pb::len(11, &pb::len(1, &all_v))), pb::len(2, &pb::text("n"))])),
        _ => vec![0x0b, 0xff],
    }
}
fn bad_item(r: &mut Rng) -> Vec<u8> {
    let name = pb::len(4, &pb::text("n"));
    let json = pb::len(3, &pb::text("1"));
    match r.below(6) {
        0 => vec![],
        1 => pb::len(1, &bad_vertex(r)),
        2 => pb::len(2, &bad_edge(r)),
        3 => pb::len(3, &pb::cat(&[pb::len(1, &bad_id(r)), name, json])),
        4 => pb::len(3, &pb::cat(&[pb::len(1, &pb::id(1)), name, pb::len(3, &bad_json(r))])),
        _ => pb::len(4, &pb::cat(&[pb::len(1, &bad_edge(r)), name, json])),
    }
}
/// What a client does that means no good, or knows no better.
#[derive(Clone, Debug)]
enum Bad {
    /// A call that cannot succeed.
    Invalid(&'static str, Vec<Part>),
    /// A reading call, done in some way or other.
    Odd(&'static str, Vec<Part>, Ending, bool),
    Bytes(Vec<u8>, u64),
    /// So many connections that stay open for so long.
    Idle(usize, u64),
    /// A client that waits for answers only so long.
    Impatient(Q, u64),
    /// So many reading calls (or ones without effect) at once, cancelled
    /// after so many milliseconds.
    Crowd(Vec<(&'static str, Vec<u8>)>, usize, u64, Option<u32>),
    /// A call that is begun with these parts and left open for so long.
    Begun(&'static str, Vec<Part>, u64, usize),
}
fn bad_act(r: &mut Rng, u: &Uni) -> Bad {
    let ending = |r: &mut Rng| *r.pick(&[Ending::Finish, Ending::Finish, Ending::Reset(8), Ending::Reset(0), Ending::Reset(2), Ending::Close, Ending::Hold(20), Ending::Hold(5_000_000)]);
    match r.weighted(&[45, 20, 10, 4, 12, 18, 14]) {
        0 => {
            let (path, m) = match r.below(9) {
                0 => ("CreateVertex", bad_vertex(r)),
                1 => ("CreateVertexFromType", bad_ident(r)),
                2 => ("CreateEdge", bad_edge(r)),
                3 => ("Get", bad_query(r, 3)),
                4 => ("Delete", bad_query(r, 3)),
                5 => ("SetProperties", match r.below(4) {
                    0 => pb::cat(&[pb::len(1, &bad_query(r, 2)), pb::len(2, &pb::text("n")), pb::len(3, &pb::text("1"))]),
                    1 => pb::cat(&[pb::len(1, &pb::len(1, &[])), pb::len(2, &bad_ident(r)), pb::len(3, &pb::text("1"))]),
                    2 => pb::cat(&[pb::len(1, &pb::len(1, &[])), pb::len(2, &pb::text("n")), pb::len(3, &bad_json(r))]),
                    _ => pb::cat(&[pb::len(1, &pb::len(1, &[])), pb::len(3, &pb::text("1"))]),
                }),
                6 => ("IndexProperty", if r.pct(50) { vec![] } else { pb::len(1, &bad_ident(r)) }),
                7 => ("ExecutePlugin", if r.pct(50) { pb::text("no such plugin") } else { pb::cat(&[pb::text("script"), pb::len(2, &bad_json(r))]) }),
                _ => ("BulkInsert", bad_item(r)),
            };
            let mut parts = Vec::new();
            if path == "BulkInsert" {
                // Good items come first, and after.
                let k = *r.pick(&[0usize, 1, 5, 120]);
                for i in 0..k {
                    parts.push(Part::Msg(net::encode_item(bulk_item(&Item::V((777u128 << 64) | i as u128, u.types[0])))));
                }
            }
            match r.below(8) {
                0 => return Bad::Invalid(*r.pick(&["NoSuchMethod", "get", ""]), vec![Part::Msg(m)]),
                // Frames that are none.
                1 => parts.push(Part::Bytes(vec![1, 0, 0, 0, 2, 1, 2])),
                2 => parts.push(Part::Bytes(vec![0, 0x7f, 0xff, 0xff, 0xff, 1, 2, 3])),
                3 => parts.push(Part::Bytes(vec![9, 9, 9, 9, 9, 9, 9])),
                4 => parts.push(Part::Bytes(vec![0, 0, 0, 0, 50, 1, 2])),
                5 => parts.push(Part::Msg(vec![0xff; *r.pick(&[1usize, 3, 100])])),
                _ => {
                    parts.push(Part::Msg(m));
                    if path == "BulkInsert" && r.pct(50) {
                        parts.push(Part::Msg(net::encode_item(bulk_item(&Item::V(778 << 64, u.types[0])))));
                    }
                }
            }
            Bad::Invalid(path, parts)
        }
        1 => {
            let mut g = Gen { r, u, indexed: vec![], limits: true, max_bulk: 3 };
            let q = g.any_query(2);
            let mut m = net::encode_query(q.to_indra());
            if r.pct(30) && !m.is_empty() {
                let i = r.below(m.len());
                m[i] ^= 1 << r.below(8);
            }
            let parts = match r.below(5) {
                0 => vec![],
                1 => vec![Part::Msg(m.clone()), Part::Msg(m)],
                2 => vec![Part::Bytes(vec![0, 0, 0]), Part::Wait(10)],
                _ => vec![Part::Msg(m)],
            };
            let e = ending(r);
            Bad::Odd(*r.pick(&["Get", "Get", "Get", "Ping", "Sync"]), parts, e, r.pct(40))
        }
        2 => {
            let pre = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec();
            let b = match r.below(7) {
                0 => vec![],
                1 => pre[..r.below(pre.len())].to_vec(),
                2 => b"GET / HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(),
                // A TLS hello.
                3 => vec![0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3],
                4 => [pre, vec![0xff; 200]].concat(),
                // A settings frame of a length that is not allowed.
                5 => [pre, vec![0, 0, 5, 4, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5]].concat(),
                _ => (0..r.range(1, 300)).map(|_| r.next() as u8).collect(),
            };
            Bad::Bytes(b, *r.pick(&[0u64, 1, 100, 4_000_000]))
        }
        3 => Bad::Idle(r.range(1, 12), *r.pick(&[1u64, 4_000_000])),
        5 => {
            let mut calls = Vec::new();
            for _ in 0..r.range(1, 4) {
                calls.push(match r.weighted(&[50, 5, 10, 15, 15]) {
                    0 => ("Get", net::encode_query(Gen { r, u, indexed: vec![], limits: true, max_bulk: 3 }.any_query(2).to_indra())),
                    1 => ("Ping", vec![]),
                    2 => ("Sync", vec![]),
                    3 => ("Delete", net::encode_query(Q::SpecV(vec![779 << 64]).to_indra())),
                    _ => ("CreateEdge", net::encode_edge(edge(&(779 << 64, u.types[0], 780 << 64)))),
                });
            }
            Bad::Crowd(calls, *r.pick(&[3usize, 10, 40, 120]), *r.pick(&[0u64, 1, 5, 50, 3000]), *r.pick(&[Some(8u32), Some(8), Some(0), None]))
        }
        6 => {
            let ms = *r.pick(&[20u64, 5_000_000, 5_000_000]);
            let k = *r.pick(&[0usize, 1, 30]);
            let mut parts: Vec<Part> = (0..k).map(|i| Part::Msg(net::encode_item(bulk_item(&Item::V((776u128 << 64) | i as u128, u.types[0]))))).collect();
            let path = if r.pct(70) {
                "BulkInsert"
            } else {
                parts.clear();
                *r.pick(&["CreateVertex", "Get", "Delete", "SetProperties", "Sync", "IndexProperty", "ExecutePlugin", "Ping"])
            };
            if r.pct(40) {
                parts.push(Part::Bytes(vec![0, 0, 0, 0, 50, 1, 2][..r.range(1, 7)].to_vec()));
            }
            Bad::Begun(path, parts, ms, *r.pick(&[1usize, 1, 5, 20, 80]))
        }
        _ => {
            let mut g = Gen { r, u, indexed: vec![], limits: true, max_bulk: 3 };
            Bad::Impatient(g.any_query(2), *g.r.pick(&[0u64, 1, 3, 20]))
        }
    }
}
fn misbehave(h: &tokio_rt::Handle, a: Bad, connects: bool) {
    let short = |p: &[Part]| format!("{p:?}").chars().take(300).collect::<String>();
    tr!("bad client: {}", format!("{a:?}").chars().take(300).collect::<String>());
    match a {
        Bad::Invalid(path, parts) => {
            let s = net::foreign_call(h, path, parts.clone(), Ending::Finish, true);
            tr!("bad client: status {s:?}");
            match s {
                Some(0) => fail!("[accepted] an invalid {path} call succeeded: {}", short(&parts)),
                Some(_) => {}
                // Its connection may have been one that could not be accepted.
                None if !connects => {}
                None => fail!("[no-status] an invalid {path} call was not answered: {}", short(&parts)),
            }
        }
        Bad::Odd(path, parts, end, read) => {
            let s = net::foreign_call(h, path, parts, end, read);
            tr!("bad client: status {s:?}");
        }
        Bad::Bytes(b, hold) => net::foreign_bytes(h, &b, hold),
        Bad::Crowd(calls, n, ms, code) => net::foreign_crowd(h, &calls, n, ms, code),
        Bad::Begun(path, parts, ms, n) => net::foreign_begun(h, path, &parts, n, ms),
        Bad::Idle(n, hold) => net::foreign_idle(h, n, hold),
        Bad::Impatient(q, ms) => {
            let mut c = match Remote::connect(h, Duration::from_secs(3000), 0) {
                Ok(c) => c,
                Err(_) => return,
            };
            c.timeout = Duration::from_millis(ms);
            let _ = exec_remote(&mut c, &Op::Get(q));
            c.timeout = Duration::from_secs(3000);
            let _ = c.ping();
        }
    }
}

/// C13: clients that misbehave, a datastore that fails and connections that
/// cannot be accepted, while others are served.
pub fn grpc_serve(job: &Job) {
    let mut r = job.rng(1);
    let kind = *r.pick(&[0u32, 3]);
    let which = r.weighted(&[35, 20, 45]);
    let rocks = which == 1;
    let u = universe(&mut r, UniOpts { max_ids: 5, max_names: 2, big_values: false });
    let n = r.range(0, 10);
    let (sops, indexed) = setup_ops(&mut r, &u, n);
    let nt = *r.pick(&[1usize, 1, 2]);
    let per = *r.pick(&[3usize, 5, 8]);
    let mix = *r.pick(if rocks { CONC_MIXES } else { MIXES });
    let max_bulk = bulk_cap(&mut r, 5);
    let mut ops = Vec::new();
    for _ in 0..nt {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: !rocks || nt == 1, max_bulk };
        ops.push((0..g.r.range(1, per)).map(|_| if rocks && nt > 1 { narrow_op(&mut g, &mix) } else { any_op(&mut g, &mix) }).collect::<Vec<_>>());
    }
    let nb = *r.pick(&[0usize, 1, 1, 2, 3]);
    let total: usize = ops.iter().map(|o| o.len()).sum();
    let mut bad: Vec<Vec<(usize, Bad)>> = Vec::new();
    let mut id = sops.len() + total;
    for _ in 0..nb {
        bad.push(
            (0..r.range(1, 6))
                .map(|_| {
                    id += 1;
                    (id - 1, bad_act(&mut r, &u))
                })
                .collect(),
        );
    }
    let (sw, cw) = (*r.pick(&[1usize, 2, 3]), *r.pick(&[1usize, 2]));
    let window = *r.pick(&[0u32, 0, 100]);
    let accept = *r.pick(&[0u32, 0, 100_000, 400_000]);
    let (p_err, p_panic) = (*r.pick(&[0u32, 20_000, 150_000]), *r.pick(&[0u32, 0, 100_000]));
    let (p_slow, slow_us) = (*r.pick(&[0u32, 0, 100_000, 500_000]), *r.pick(&[300u64, 20_000, 2_000_000]));
    // Calls for which the datastore takes very long.
    let mut stuck = Vec::new();
    if which == 2 && r.pct(25) {
        let n = *r.pick(&[1usize, 2, 3, 4, 9, 20]);
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: false, max_bulk };
        for _ in 0..n {
            stuck.push(match g.r.below(4) {
                0 => Op::Sync,
                _ if n > 4 => Op::Get(g.any_query(2)),
                _ => any_op(&mut g, &MIXES[0]),
            });
        }
    }
    set_nops(id);
    let mut c = job.cfg(*r.pick(&[50_000u64, 300_000]));
    slow_net(&mut c, &mut r);
    c.time_cap = 60_000 * 1_000_000_000;
    job.begin(c);
    let db = match which {
        1 => open_ok(kind, "creating a database"),
        2 => Db::flaky(),
        _ => Db::mem(),
    };
    let mut g = Graph { bulk_overwrites: rocks, ..Default::default() };
    setup(&db, &mut g, &sops, 0);
    let srv = Server::start(&db, sw, None);
    let rt = net::runtime(cw, "cli");
    let brt = net::runtime(1, "bad");
    let cs: Vec<Remote> = (0..nt).map(|_| client(&rt, 1000, window)).collect();
    tr!("--- clients start");
    let mut also: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for acts in bad {
        let h = brt.handle().clone();
        also.push(Box::new(move || {
            for (id, a) in acts {
                if !dropped(id as u32) {
                    misbehave(&h, a, accept == 0);
                }
            }
        }));
    }
    if nb > 0 {
        nontrivial();
    }
    let mut held = None;
    if let (Db::Flaky(d), false) = (&db, stuck.is_empty()) {
        use std::sync::atomic::Ordering::Relaxed;
        nontrivial();
        let n = stuck.len();
        d.datastore.odds.stick_us.store(6_000_000_000, Relaxed);
        d.datastore.odds.stick.store(n as u64, Relaxed);
        let (h, evs) = (rt.handle().clone(), Arc::new(Mutex::new(Vec::new())));
        let mut ts = Vec::new();
        for op in stuck {
            let (h, evs) = (h.clone(), evs.clone());
            ts.push(std::thread::spawn(move || {
                let mut c = match Remote::connect(&h, Duration::from_secs(600), 0) {
                    Ok(c) => c,
                    Err(e) => fail!("[blocked] while other calls take long, connecting failed: {e:?}"),
                };
                c.timeout = Duration::from_secs(20_000);
                let e = call(&mut c, op, 60, 0, false);
                unsafe { sim_nopoint(1) };
                evs.lock().unwrap().push(e);
                unsafe { sim_nopoint(-1) };
            }));
        }
        let mut waited = 0;
        while d.datastore.odds.stick.load(Relaxed) > 0 {
            std::thread::sleep(Duration::from_secs(1));
            waited += 1;
            if waited > 600 {
                fail!("[blocked] {n} slow calls were sent to the server, but {} have not reached the datastore after 600 s", d.datastore.odds.stick.load(Relaxed));
            }
        }
        let mut c = client(&rt, 600, 0);
        if let Err(e) = c.ping() {
            fail!("[blocked] ping failed while other calls take long: {e:?}");
        }
        held = Some((ts, evs));
    }
    unsafe { sim_nopoint(1) };
    cfg().p_net_accept = accept;
    unsafe { sim_nopoint(-1) };
    faults(true);
    if let Db::Flaky(d) = &db {
        use std::sync::atomic::Ordering::Relaxed;
        d.datastore.odds.err.store(p_err, Relaxed);
        d.datastore.odds.panic.store(p_panic, Relaxed);
        d.datastore.odds.slow_us.store(slow_us, Relaxed);
        d.datastore.odds.slow.store(p_slow, Relaxed);
    }
    let mut evs = run_clients(cs, &ops, sops.len(), false, also);
    faults(false);
    tr!("--- clients done");
    let mut injected = 0;
    if let Some((ts, out)) = held {
        for t in ts {
            let _ = t.join();
        }
        evs.append(&mut out.lock().unwrap());
        evs.sort_by_key(|e| e.start);
    }
    if let Db::Flaky(d) = &db {
        use std::sync::atomic::Ordering::Relaxed;
        let o = &d.datastore.odds;
        o.err.store(0, Relaxed);
        o.panic.store(0, Relaxed);
        o.slow.store(0, Relaxed);
        injected = o.errs.load(Relaxed) + o.panics.load(Relaxed);
        hstat(h::FAULTED, injected);
        if injected > 0 {
            nontrivial();
        }
    }
    panics(&evs);
    // A call on a datastore that failed reports it and has done nothing.
    let mut failed = 0;
    evs.retain(|e| match &e.res {
        Some(Res::Err(ErrK::Net, m)) => {
            failed += 1;
            if failed > injected || !m.starts_with("status ") {
                fail!("[net-error] {:?} failed on an intact connection: {m}", e.op);
            }
            false
        }
        _ => true,
    });
    if lin::overlaps(&evs) > 0 {
        nontrivial();
    }
    after_faults(&db, &srv, &u, &mut evs);
    let fin = dump_ok(&db, &u);
    lin_check(&g, &evs, Fin::End(&fin));
}

/// The largest message the transport takes, and how sure our estimate of a
/// message's size is.
const MSG_MAX: f64 = 4.0 * 1024.0 * 1024.0;

fn val_size(v: &Val) -> usize {
    v.len() + 8
}
/// About the size of a message that carries all there is.
fn graph_size(g: &Graph) -> usize {
    g.v.len() * 40 + g.e.len() * 60 + g.vp.values().map(|x| 100 + val_size(x)).sum::<usize>() + g.ep.values().map(|x| 120 + val_size(x)).sum::<usize>()
}

/// C11: few calls with large contents: bulk inserts and results of thousands
/// of items, values up to the size of a message and beyond, deep queries.
pub fn grpc_big(job: &Job) {
    let mut r = job.rng(1);
    let rocks = r.pct(25);
    let u = universe(&mut r, UniOpts { max_ids: 5, max_names: 3, big_values: false });
    let (sops, indexed) = setup_ops(&mut r, &u, 6);
    let n = r.range(3, 10);
    // What is large in this run.
    let (items, values, deep) = *r.pick(&[(true, false, false), (true, false, false), (false, true, false), (false, false, true), (true, true, true)]);
    let mut ops: Vec<Op> = Vec::new();
    let base = 0x0b16_0000_0000_0000u128 << 64;
    let (mut made, mut es): (u128, Vec<Ed>) = (0, vec![]);
    let mix = MIXES[0];
    while ops.len() < n {
        let mut g = Gen { r: &mut r, u: &u, indexed: indexed.clone(), limits: true, max_bulk: 5 };
        let kind = g.r.below(10);
        if items && (kind < 3 || made == 0) {
            let n = *g.r.pick(&[99usize, 100, 101, 200, 256, 999, 1000, 1001, 3000]);
            let mut v = Vec::new();
            let t = g.u.types[0];
            // It refers to what it inserts itself only.
            let first = made;
            es.clear();
            while v.len() < n {
                let own = |g: &mut Gen| base + first + g.r.below((made - first) as usize) as u128;
                match g.r.below(if made == first { 1 } else { 5 }) {
                    0 | 1 => {
                        v.push(Item::V(base + made, t));
                        made += 1;
                    }
                    2 => {
                        let e = (own(&mut g), g.u.etypes[0], own(&mut g));
                        v.push(Item::E(e));
                        es.push(e);
                    }
                    3 => v.push(Item::VP(own(&mut g), g.name(), g.val())),
                    _ if !es.is_empty() => {
                        let e = *g.r.pick(&es);
                        v.push(Item::EP(e, g.name(), g.val()));
                    }
                    _ => {}
                }
            }
            ops.push(Op::Bulk(v));
        } else if values && kind < 6 {
            // One large value.
            let len = *g.r.pick(&[1_000usize, 16_383, 16_384, 70_000, 400_000, 1_500_000, 3_000_000, 5_000_000]);
            let s: String = (0..len).map(|i| (b'a' + ((i * 7 + len) % 26) as u8) as char).collect();
            let x = val(&match g.r.below(3) {
                0 => serde_json::json!(s),
                1 => serde_json::json!({ "k": s }),
                _ => serde_json::json!([1, s]),
            });
            let id = base + g.r.below(3) as u128;
            let nm = g.name();
            ops.push(if g.r.pct(50) { Op::Bulk(vec![Item::V(id, g.u.types[0]), Item::VP(id, nm, x)]) } else { Op::SetP(if len < 70_000 && made < 1500 { Q::AllV } else { Q::SpecV(vec![base, base + 1, base + 2]) }, nm, x) });
        } else if deep && kind < 8 {
            // Included results on the way, or a long way.
            let d = g.r.range(5, 44);
            let all = g.r.pct(50);
            let (mut q, mut vs) = if g.r.pct(50) { (Q::AllV, true) } else { (Q::AllE, false) };
            for _ in 0..d {
                if all || g.r.pct(30) {
                    q = Q::Include(Box::new(q));
                } else {
                    q = Q::Pipe { inner: Box::new(q), out: g.r.pct(50), limit: 60, t: None };
                    vs = !vs;
                }
            }
            let _ = vs;
            ops.push(if g.r.pct(70) { Op::Get(q) } else { Op::Get(Q::Count(Box::new(q))) });
        } else if kind < 9 {
            let q = match g.r.below(8) {
                0 => Q::AllV,
                1 => Q::AllE,
                2 => Q::Props { inner: Box::new(Q::AllV), name: None },
                3 => Q::Props { inner: Box::new(Q::Include(Box::new(Q::AllV))), name: None },
                4 => Q::Pipe { inner: Box::new(Q::Include(Box::new(Q::AllV))), out: true, limit: u32::MAX, t: None },
                5 => Q::Count(Box::new(Q::AllE)),
                6 => Q::SpecV((0..made.min(2000)).map(|i| base + i).collect()),
                _ => Q::Props { inner: Box::new(Q::AllE), name: None },
            };
            ops.push(Op::Get(q));
        } else {
            ops.push(any_op(&mut g, &mix));
        }
    }
    set_nops(sops.len() + ops.len());
    let window = *r.pick(&[0u32, 0, 5000, 100_000]);
    let mut c = job.cfg(300_000);
    slow_net(&mut c, &mut r);
    c.net_seg = c.net_seg.max(1460);
    c.net_lat_us = c.net_lat_us.min(1000);
    c.net_jit_us = c.net_jit_us.min(100);
    c.net_sndbuf = c.net_sndbuf.max(8192);
    job.begin(c);
    let db = if rocks { open_ok(0, "creating a database") } else { Db::mem() };
    let mut g = Graph { bulk_overwrites: rocks, ..Default::default() };
    setup(&db, &mut g, &sops, 0);
    let srv = Server::start(&db, 2, None);
    let rt = net::runtime(1, "cli");
    let mut cl = client(&rt, 100_000, window);
    for (i, op) in ops.iter().enumerate() {
        let id = (sops.len() + i) as u32;
        if dropped(id) {
            continue;
        }
        let e = call(&mut cl, op.clone(), 1, id, false);
        nontrivial();
        let res = e.res.unwrap();
        // How large the largest message of the call is.
        let req = match op {
            Op::Bulk(v) => v.iter().map(|i| match i {
                Item::VP(_, _, x) | Item::EP(_, _, x) => val_size(x),
                _ => 0,
            }).max().unwrap_or(0),
            Op::SetP(_, _, x) => val_size(x),
            _ => 0,
        };
        if let Res::Err(ErrK::Net, m) = &res {
            let size = match op {
                Op::Get(Q::Count(_)) => 0,
                Op::Get(_) => graph_size(&g),
                _ => req,
            };
            if (size as f64) < MSG_MAX * 0.75 {
                fail!("[net-error] call {id} failed on an intact network (largest message about {size} bytes): {m}");
            }
            tr!("too large: {size}");
            continue;
        }
        if let Err(m) = g.apply(op, &res) {
            let m: String = m.chars().take(2000).collect();
            fail!("[wrong] call {id} over gRPC: {m}");
        }
    }
    if let Some(s) = srv.stopped.lock().unwrap().as_ref() {
        fail!("[stopped] the server stopped: {s}");
    }
    let fin = dump_ok(&db, &u);
    if fin != g {
        let m: String = g.diff(&fin).chars().take(2000).collect();
        fail!("[state] the graph differs from what the calls made of it: {m}");
    }
}

/// What the lives of a crashing server have in common.
struct Lives {
    rocks: bool,
    power: bool,
    u: Uni,
    nt: usize,
    mine: Vec<Vec<Op>>,
    first: usize,
    ncrash: u32,
    kind: u32,
}
fn lives(job: &Job) -> Lives {
    let mut r = job.rng(1);
    // 1 RocksDB, killed; 2 RocksDB, power loss; 3 memory; 4 memory, the disk
    // failing while the server starts
    let only = job.param(7);
    let (rocks, power) = (r.pct(65), r.pct(40));
    let rocks = if only > 0 { only < 3 } else { rocks };
    let power = if only == 1 || only == 2 { only == 2 } else { power };
    let kind = *r.pick(&[0u32, 2, 3]);
    let u = universe(&mut r, UniOpts { max_ids: 6, max_names: 2, big_values: false });
    let nt = *r.pick(&[1usize, 2, 3]);
    let per = *r.pick(&[3usize, 6]);
    let mix = *r.pick(if rocks { CONC_MIXES } else { MIXES });
    let syncs = *r.pick(if only == 4 { &[25usize, 50] } else { &[0usize, 10, 25] });
    let wide = *r.pick(&[0usize, 10]);
    let max_bulk = bulk_cap(&mut r, 5);
    let ncrash = *r.pick(&[1u32, 1, 2]);
    let (mut first, mut total, mut mine) = (0, 0, Vec::new());
    for e in 0..=ncrash {
        let mut r = job.rng(100 + e as u64);
        let mut ops = Vec::new();
        for t in 0..nt {
            let mut g = Gen { r: &mut r, u: &u, indexed: u.names.clone(), limits: false, max_bulk };
            ops.push(
                (0..g.r.range(1, per))
                    .map(|i| {
                        if g.r.pct(syncs) {
                            Op::Sync
                        } else if e == 0 && t == 0 && i == 0 && g.r.pct(50) {
                            Op::Index(*g.r.pick(&g.u.names))
                        } else if g.r.pct(wide) {
                            wide_bulk(&mut g, ((e as usize * 1000 + t * 100 + i + 1) as u128) << 64)
                        } else {
                            let op = if rocks && nt > 1 { narrow_op(&mut g, &mix) } else { any_op(&mut g, &mix) };
                            crash_op(op, &mut g)
                        }
                    })
                    .collect::<Vec<_>>(),
            );
        }
        let k = ops.iter().map(|o| o.len()).sum::<usize>();
        if e < job.epoch {
            first += k;
        }
        if e == job.epoch {
            mine = ops;
        }
        total += k;
    }
    set_nops(total);
    Lives { rocks, power, u, nt, mine, first, ncrash, kind }
}

/// C12, C06, C07, C08: the whole server process is killed, or its machine
/// loses power, while clients call it.
pub fn grpc_crash(job: &Job) {
    let Lives { rocks, power, u, nt, mine, first, ncrash, kind } = lives(job);
    let n: usize = mine.iter().map(|v| v.len()).sum();
    let last = job.epoch >= ncrash;
    let mut er = job.rng(500 + job.epoch as u64);
    let breaks = er.pct(30);
    let patience: Vec<u64> = (0..nt).map(|_| if breaks { *er.pick(PATIENCE) } else { 3_000_000 }).collect();
    let mut c = job.cfg(*er.pick(&[50_000u64, 300_000]));
    if breaks {
        bad_net(&mut c, &mut er);
    } else {
        slow_net(&mut c, &mut er);
    }
    if !last {
        c.crash_kind = if power { 2 } else { 1 };
    }
    c.shadow = power as u32;
    c.fsmode = er.below(2) as u32;
    c.time_cap = 40_000 * 1_000_000_000;
    let recs = load();
    let had = recs.iter().any(|r| matches!(r, Rec::Note(1, _)));
    let (base, evs, _) = since_base(recs);
    job.begin(c);
    const IMG: &str = "/sim/data/image";
    if job.epoch == 0 {
        std::fs::create_dir("/sim/data").unwrap();
        let _ = std::fs::File::open("/sim").and_then(|f| f.sync_all());
        let _ = std::fs::File::open("/sim/data").and_then(|f| f.sync_all());
    } else {
        nontrivial();
    }
    // As the server binary does it.
    let exists = std::path::Path::new(IMG).exists();
    let db = match rocks {
        true => open_ok(kind, if job.epoch == 0 { "creating the database" } else { "reopening the database after the crash" }),
        false if exists => match catch(|| Db::mem_read(IMG)) {
            Ok(Ok(d)) => d,
            Ok(Err(e)) => fail!("[image] the image cannot be read after the crash: {e}"),
            Err(p) => fail!("[panic] reading the image panicked: {p}"),
        },
        _ => Db::mem_create(IMG),
    };
    log(&Rec::Opened);
    let g = dump_ok(&db, &u);
    if job.epoch > 0 {
        let base = base.unwrap_or(Graph { bulk_overwrites: rocks, ..Default::default() });
        panics(&evs);
        let mut evs = unknown(evs);
        if power || !rocks {
            mark_durable(&mut evs);
        }
        if !rocks {
            let synced = evs.iter().any(|e| e.op == Op::Sync && e.res == Some(Res::Unit));
            if !exists && (synced || had) {
                fail!("[image] the image has disappeared");
            }
        }
        lin_check(&base, &evs, if !rocks { Fin::Image(&g) } else if power { Fin::Prefix(&g) } else { Fin::End(&g) });
        quiet_checks(&db, &g, &u, O_MODEL | O_PANIC | O_INDEX | O_STRUCT);
    }
    if exists {
        log(&Rec::Note(1, 0));
    }
    log(&Rec::Base(g.clone()));
    let srv = Server::start(&db, *er.pick(&[1usize, 2]), None);
    let rt = net::runtime(1, "cli");
    let one = client(&rt, 3000, 0);
    let mut cs: Vec<Remote> = (0..nt).map(|i| if i == 0 { one.clone() } else { client(&rt, 3000, 0) }).collect();
    for (c, p) in cs.iter_mut().zip(&patience) {
        c.timeout = Duration::from_millis(*p);
    }
    let kept = cs.clone();
    if !last {
        let k = if er.pct(60) { 1 + n + n / 2 } else { *er.pick(&[20usize, 80]) };
        unsafe { sim_at_crash(er.range(1, k) as u64) };
    }
    faults(breaks);
    let evs = run_clients(cs, &mine, first, true, vec![]);
    faults(false);
    if !last {
        unsafe { sim_crash() };
    }
    panics(&evs);
    let mut evs = unknown(evs);
    after_faults(&db, &srv, &u, &mut evs);
    rt.shutdown_background();
    drop((one, kept));
    srv.rt.shutdown_timeout(Duration::from_secs(1000));
    let fin = dump_ok(&db, &u);
    lin_check(&g, &evs, Fin::End(&fin));
}

/// C12 and the crash properties: the server binary itself (its `main`), killed
/// or losing its power in every life and started again on the same path. The
/// files are looked at through the library between the lives.
pub fn grpc_main(job: &Job) {
    let Lives { rocks, power, u, nt, mine, first, ncrash, .. } = lives(job);
    let n: usize = mine.iter().map(|v| v.len()).sum();
    let last = job.epoch > ncrash;
    let mut r = job.rng(2);
    let open_files = *r.pick(&["", "--max-open-files=20", "--max-open-files=100", "--max-open-files=-1"]);
    let plugins = r.pct(15);
    let repairs = rocks && r.pct(25);
    let mut er = job.rng(500 + job.epoch as u64);
    let breaks = er.pct(20);
    let patience: Vec<u64> = (0..nt).map(|_| if breaks { *er.pick(PATIENCE) } else { 3_000_000 }).collect();
    let mut c = job.cfg(*er.pick(&[50_000u64, 300_000]));
    if breaks {
        bad_net(&mut c, &mut er);
    } else {
        slow_net(&mut c, &mut er);
    }
    let bad_start = job.param(7) == 4 && job.epoch > 0;
    if bad_start {
        c.p_eio_read = *er.pick(&[0, 300_000, 600_000]);
        c.p_eio_open = *er.pick(&[0, 200_000]);
        c.p_eio_stat = *er.pick(&[0, 300_000]);
        c.p_short_read = *er.pick(&[0, 300_000]);
    }
    if !last {
        c.crash_kind = if power { 2 } else { 1 };
    }
    c.shadow = power as u32;
    c.fsmode = er.below(2) as u32;
    c.time_cap = 40_000 * 1_000_000_000;
    let recs = load();
    let had = recs.iter().any(|r| matches!(r, Rec::Note(1, _)));
    let (base, evs, _) = since_base(recs);
    job.begin(c);
    let path = if rocks { PATH } else { "/sim/data/image" };
    if job.epoch == 0 {
        std::fs::create_dir("/sim/data").unwrap();
        let _ = std::fs::File::open("/sim").and_then(|f| f.sync_all());
        let _ = std::fs::File::open("/sim/data").and_then(|f| f.sync_all());
    } else {
        nontrivial();
        let exists = std::path::Path::new(path).exists();
        let db = match rocks {
            true => open_ok(0, "reopening the database after the crash"),
            false if exists => match catch(|| Db::mem_read(path)) {
                Ok(Ok(d)) => d,
                Ok(Err(e)) => fail!("[image] the image cannot be read after the crash: {e}"),
                Err(p) => fail!("[panic] reading the image panicked: {p}"),
            },
            _ => Db::mem_create(path),
        };
        log(&Rec::Opened);
        let g = dump_ok(&db, &u);
        let base = base.unwrap_or(Graph { bulk_overwrites: rocks, ..Default::default() });
        panics(&evs);
        let mut evs = unknown(evs);
        if power || !rocks {
            mark_durable(&mut evs);
        }
        if !rocks {
            let synced = evs.iter().any(|e| e.op == Op::Sync && e.res == Some(Res::Unit));
            if !exists && (synced || had) {
                fail!("[image] the image has disappeared");
            }
        }
        lin_check(&base, &evs, if !rocks { Fin::Image(&g) } else if power { Fin::Prefix(&g) } else { Fin::End(&g) });
        quiet_checks(&db, &g, &u, O_MODEL | O_PANIC | O_INDEX | O_STRUCT);
        if last {
            return;
        }
        drop(db);
        if exists {
            log(&Rec::Note(1, 0));
        }
        log(&Rec::Base(g));
    }
    let mut args: Vec<&str> = Vec::new();
    let globs = plugin_glob();
    if plugins {
        args.extend(["--plugins", &globs]);
    }
    if rocks {
        args.extend(["rocksdb", path]);
        if !open_files.is_empty() {
            args.push(open_files);
        }
    } else {
        args.extend(["memory", "--persist-path", path]);
    }
    if repairs && job.epoch > 0 && er.pct(60) {
        let mut a = args.clone();
        a.push("--repair");
        match catch(|| sut::net::server_main(&a, 1)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => fail!("[repair] the server failed to repair the database: {e}"),
            Err(p) => fail!("[panic] repairing panicked: {p}"),
        }
    }
    let k = if er.pct(60) { 1 + n + n / 2 } else { *er.pick(&[20usize, 80]) };
    let early = er.pct(15);
    if early {
        unsafe { sim_at_crash(er.range(1, k) as u64) };
    }
    let ended = Arc::new(Mutex::new(None));
    let workers = *er.pick(&[1usize, 2, 3]);
    let a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    let en = ended.clone();
    let start = move || {
        let (a, en) = (a.clone(), en.clone());
        std::thread::spawn(move || {
            let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
            let r = catch(|| sut::net::server_main(&a, workers));
            *en.lock().unwrap() = Some(format!("{r:?}"));
        });
    };
    faults(bad_start);
    start();
    let rt = net::runtime(1, "cli");
    let mut tries = 0;
    let one = loop {
        if let Ok(c) = Remote::connect(rt.handle(), Duration::from_secs(3000), 0) {
            break c;
        }
        tries += 1;
        if let Some(e) = ended.lock().unwrap().take() {
            if !bad_start || hard_faults() == 0 {
                fail!("[start] the server ended: {e}");
            }
            hstat(h::FAULTED, 1);
            faults(false);
            start();
        }
        if tries > 1000 {
            fail!("[start] the server does not come up");
        }
        std::thread::sleep(Duration::from_millis(100));
    };
    faults(false);
    let mut cs: Vec<Remote> = (0..nt).map(|i| if i == 0 { one.clone() } else { client(&rt, 3000, 0) }).collect();
    for (c, p) in cs.iter_mut().zip(&patience) {
        c.timeout = Duration::from_millis(*p);
    }
    let kept = cs.clone();
    if !early {
        unsafe { sim_at_crash(er.range(1, k) as u64) };
    }
    faults(breaks);
    let evs = run_clients(cs, &mine, first, true, vec![]);
    faults(false);
    panics(&evs);
    if let Some(e) = ended.lock().unwrap().as_ref() {
        fail!("[stopped] the server ended: {e}");
    }
    drop((one, kept));
    unsafe { sim_crash() };
}
