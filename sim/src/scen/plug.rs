//! C14: the plugin host's parallel map.
use super::store::*;
use super::*;
use crate::exec::*;
use crate::model::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use sut::db::Db;
use sut::plug::{self, PluginError};

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Fine,
    Fails,
    Panics,
    Slow(u64),
}

pub fn plugin_map(job: &Job) {
    let mut r = job.rng(1);
    let rocks = r.pct(45);
    let kind = *r.pick(&[0u32, 3, 4]);
    // The helper looks at its error only every thousand vertices.
    let n = match r.weighted(&[70, 10, 12, 8]) {
        0 => r.range(0, 24),
        1 => r.range(25, 120),
        2 => r.range(995, 1006),
        _ => r.range(1990, 2105),
    };
    let threads = *r.pick(&[None, Some(0usize), Some(1), Some(1), Some(2), Some(3), Some(8), Some(17)]);
    let max = threads.map(|t| t.max(1)).unwrap_or(8);
    let types = [sym("t"), sym("tt")];
    let ids: Vec<Vid> = (0..n).map(|i| ((r.next() as u128) << 64) | i as u128).collect();
    let mut what: BTreeMap<Vid, What> = BTreeMap::new();
    let mode = r.weighted(&[35, 25, 25, 15]);
    let mut sorted = ids.clone();
    sorted.sort();
    let pos = |r: &mut Rng| match r.weighted(&[50, 25, 25]) {
        0 => *r.pick(&sorted),
        1 => sorted[n - 1],
        _ => sorted[0],
    };
    if n > 0 {
        let bad = match mode {
            0 => 0,
            1 => 1,
            2 => r.range(1, 4),
            _ => r.range(0, n),
        };
        for _ in 0..bad.min(200) {
            let w = if r.pct(50) { What::Fails } else { What::Panics };
            what.insert(pos(&mut r), w);
        }
        for _ in 0..r.range(0, 6) {
            let v = pos(&mut r);
            what.entry(v).or_insert(What::Slow(*r.pick(&[1u64, 10, 1_000, 60_000])));
        }
    }
    // Reading fails, sometimes.
    let eio = rocks && kind == 4 && r.pct(40);
    // Somebody else writes meanwhile.
    let nwr = if rocks && !eio && r.pct(40) { r.range(1, 8) } else { 0 };
    set_nops(n + nwr);
    let ids: Vec<Vid> = ids.into_iter().enumerate().filter(|x| !dropped(x.0 as u32)).map(|x| x.1).collect();
    let mut c = job.cfg(if n < 200 { 20_000 } else { 300_000 });
    if eio {
        c.p_eio_read = *r.pick(&[5_000u32, 50_000, 300_000]);
    }
    job.begin(c);
    let db = Arc::new(if rocks { open_ok(kind, "creating a database") } else { Db::mem() });
    let want: BTreeMap<Vid, Sym> = ids.iter().map(|i| (*i, types[(*i % 2) as usize])).collect();
    let order: Vec<Item> = ids.iter().map(|i| Item::V(*i, want[i])).collect();
    if !order.is_empty() {
        match exec(&db, &Op::Bulk(order)) {
            Res::Unit => {}
            r => fail!("[setup] {r:?}"),
        }
    }
    if rocks && r.pct(70) {
        let _ = exec(&db, &Op::Sync);
    }
    let others: Vec<Vid> = (0..nwr).map(|i| ((r.next() as u128) << 64) | (1 << 40) | i as u128).collect();
    let log: Arc<Mutex<Vec<(Vid, Sym)>>> = Arc::new(Mutex::new(Vec::new()));
    let running = Arc::new(AtomicUsize::new(0));
    let most = Arc::new(AtomicUsize::new(0));
    let bad = Arc::new(AtomicU64::new(0));
    let seen = log.clone();
    let (run2, most2, bad2, wh) = (running.clone(), most.clone(), bad.clone(), what.clone());
    struct Out(Arc<AtomicUsize>);
    impl Drop for Out {
        fn drop(&mut self) {
            self.0.fetch_sub(1, Ordering::SeqCst);
        }
    }
    let f = Box::new(move |v: indradb::Vertex| -> Result<(), PluginError> {
        let now = run2.fetch_add(1, Ordering::SeqCst) + 1;
        let _out = Out(run2.clone());
        most2.fetch_max(now, Ordering::SeqCst);
        hstat(h::MAPPER, 1);
        let id = v.id.as_u128();
        let t = sym(v.t.as_str());
        unsafe { sim_nopoint(1) };
        seen.lock().unwrap().push((id, t));
        unsafe { sim_nopoint(-1) };
        tr!("mapper called with {}", vn(id));
        match wh.get(&id) {
            Some(What::Fails) => {
                bad2.fetch_add(1, Ordering::SeqCst);
                Err(PluginError::InvalidArgument("the mapper fails".into()))
            }
            Some(What::Panics) => {
                bad2.fetch_add(1, Ordering::SeqCst);
                panic!("the mapper panics")
            }
            Some(What::Slow(us)) => {
                std::thread::sleep(Duration::from_micros(*us));
                Ok(())
            }
            _ => {
                unsafe { sim_yield() };
                Ok(())
            }
        }
    });
    let wdb = db.clone();
    let oth = others.clone();
    let writer = std::thread::spawn(move || {
        for (i, v) in oth.iter().enumerate() {
            if !dropped((n + i) as u32) {
                let _ = exec(&wdb, &Op::CreateV(*v, sym("other")));
                if i % 2 == 0 {
                    let _ = exec(&wdb, &Op::Delete(Q::SpecV(vec![*v])));
                }
            }
        }
    });
    if eio {
        faults(true);
    }
    let res = catch(|| plug::run(&db, threads, f));
    faults(false);
    let still = running.load(Ordering::SeqCst);
    let calls = log.lock().unwrap().clone();
    std::thread::sleep(Duration::from_secs(2));
    tr!("map returned {res:?}");
    if still > 0 {
        fail!("[early] map returned while {still} callbacks were running");
    }
    let later = log.lock().unwrap().len() - calls.len();
    if later > 0 {
        fail!("[early] {later} callbacks started after map had returned");
    }
    let _ = writer.join();
    let m = most.load(Ordering::SeqCst);
    if m > max {
        fail!("[width] {m} callbacks ran at once, asked for were {threads:?}");
    }
    let mut count: BTreeMap<Vid, usize> = BTreeMap::new();
    for (v, t) in &calls {
        let k = count.entry(*v).or_default();
        *k += 1;
        if *k > 1 {
            fail!("[twice] the mapper was called twice with {}", vn(*v));
        }
        match want.get(v) {
            Some(w) if w == t => {}
            Some(w) => fail!("[type] vertex {} came with type {} instead of {}", vn(*v), sym_name(*t), sym_name(*w)),
            None if others.contains(v) && *t == sym("other") => {}
            None => fail!("[invented] vertex {} does not exist", vn(*v)),
        }
    }
    let missing = want.keys().filter(|v| !count.contains_key(v)).count();
    let bad = bad.load(Ordering::SeqCst);
    if !what.is_empty() || n > 1 && max > 1 {
        nontrivial();
    }
    match res {
        Err(p) => fail!("[panic] map panicked: {p}"),
        Ok(Ok(())) => {
            if missing > 0 {
                fail!("[missed] map succeeded; {missing} of {} vertices were not visited", want.len());
            }
            if bad > 0 {
                fail!("[swallowed] map succeeded although {bad} callbacks failed or panicked");
            }
        }
        Ok(Err(e)) => {
            if bad == 0 && hard_faults() == 0 {
                fail!("[error] map failed although no callback did: {e}");
            }
        }
    }
    // The next one is not affected.
    let k = Arc::new(AtomicU64::new(0));
    let k2 = k.clone();
    match catch(|| plug::run(&db, Some(2), Box::new(move |_| { k2.fetch_add(1, Ordering::SeqCst); Ok(()) }))) {
        Ok(Ok(())) => {}
        r => fail!("[after] a map after the first gave {:?}", r.map(|r| r.map_err(|e| e.to_string()))),
    }
    let there = want.len() as u64 + others.iter().enumerate().filter(|(i, _)| i % 2 == 1 && !dropped((n + i) as u32)).count() as u64;
    if k.load(Ordering::SeqCst) != there {
        fail!("[after] a map after the first visited {} of {there} vertices", k.load(Ordering::SeqCst));
    }
}
