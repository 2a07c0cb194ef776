//! Runs many simulations on all cores, collects what they covered, and turns
//! a violation into a minimal replay file.
use crate::rt::*;
use crate::scen::{self, SCENS};
use crate::worker::map_shm;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Empties a scratch directory that this program made.
fn wipe(root: &str) {
    if !root.starts_with("/dev/shm/indrasim-") {
        return;
    }
    if let Ok(d) = std::fs::read_dir(root) {
        for e in d.flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct JobSpec {
    pub scen: u32,
    pub seed: u64,
    pub sseed: u64,
    pub params: Vec<(usize, i64)>,
    pub drops: Vec<u32>,
    pub replay: Option<Vec<ChoiceRec>>,
    pub trace: bool,
}
#[derive(Clone, Default)]
pub struct Outcome {
    pub verdict: u32,
    pub msg: String,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub choices: Vec<ChoiceRec>,
    pub chlost: u32,
    pub nops: usize,
    pub trace: String,
    pub points: u64,
    pub epochs: u32,
}
impl Outcome {
    /// What kind of failure: the word in brackets.
    pub fn class(&self) -> String {
        match self.verdict {
            V_VIOLATION => self.msg.split(']').next().unwrap_or("").trim_start_matches('[').to_string(),
            V_DEADLOCK => "deadlock".into(),
            V_TIMECAP => "hang".into(),
            V_STEPCAP => "livelock".into(),
            _ => String::new(),
        }
    }
    pub fn bad(&self) -> bool {
        matches!(self.verdict, V_VIOLATION | V_DEADLOCK | V_TIMECAP | V_STEPCAP)
    }
    pub fn text(&self) -> String {
        match self.verdict {
            V_VIOLATION => self.msg.clone(),
            V_DEADLOCK => format!("[deadlock] {}", self.msg),
            V_TIMECAP => format!("[hang] {}", self.msg),
            V_STEPCAP => format!("[livelock] {}", self.msg),
            _ => self.msg.clone(),
        }
    }
}

pub struct Worker {
    child: Child,
    m: *mut Shm,
    path: String,
}
unsafe impl Send for Worker {}
impl Worker {
    pub fn new(i: usize) -> Worker {
        let path = format!("/dev/shm/indrasim-{:07}-{:02}", std::process::id(), i);
        let m = map_shm(&path, true);
        let root = format!("{path}.d");
        let _ = std::fs::create_dir(&root);
        let ncpu = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.max(1) as usize;
        let mut c = Command::new("/proc/self/exe");
        c.arg("worker").arg(&path).arg((i % ncpu).to_string());
        // Room for the arguments of programs that run inside (see `sim_args`).
        c.args(["-"; 12]);
        c.env_clear().env("MALLOC_ARENA_MAX", "1").env("TMPDIR", "/sim/tmp").env("HOME", "/sim");
        if std::env::var_os("INDRASIM_DEBUG").is_some() {
            c.env("INDRASIM_DEBUG", "1");
        } else {
            c.stderr(Stdio::null());
        }
        c.stdin(Stdio::piped()).stdout(Stdio::piped());
        unsafe {
            c.pre_exec(|| {
                libc::personality(0x0040000);
                Ok(())
            });
        }
        let child = c.spawn().expect("cannot start a worker");
        Worker { child, m, path }
    }
    pub fn shm(&self) -> &'static mut Shm {
        unsafe { &mut *self.m }
    }
    pub fn run(&mut self, j: &JobSpec) -> Outcome {
        let root = format!("{}.d", self.path);
        wipe(&root);
        let _ = std::fs::create_dir(format!("{root}/tmp"));
        let m = self.shm();
        m.seed = j.seed;
        m.scenario = j.scen;
        m.epoch = 0;
        m.replay = j.replay.is_some() as u32;
        m.trace = j.trace as u32;
        m.params.fill(0);
        m.params[62] = j.sseed as i64;
        for (i, v) in &j.params {
            m.params[*i] = *v;
        }
        m.root.fill(0);
        m.root[..root.len()].copy_from_slice(root.as_bytes());
        m.ndrop = j.drops.len().min(MAXDROP) as u32;
        m.drop[..m.ndrop as usize].copy_from_slice(&j.drops[..m.ndrop as usize]);
        m.nreplay = 0;
        if let Some(r) = &j.replay {
            let mut r = r.clone();
            r.sort_by_key(|c| (c.stream >> 8, c.stream & 255, c.idx));
            m.nreplay = r.len() as u32;
            m.rep[..r.len()].copy_from_slice(&r);
        }
        m.verdict = 0;
        m.msglen = 0;
        m.trace_hash = 0;
        m.sched_hash = 0;
        m.points = 0;
        m.switches = 0;
        m.simtime = 0;
        m.work_hash = 0;
        m.stats.fill(0);
        m.nch = 0;
        m.chlost = 0;
        m.evlen = 0;
        m.trlen = 0;
        let ok = self.child.stdin.as_mut().unwrap().write_all(b".").is_ok();
        let mut b = [0u8; 1];
        if !ok || self.child.stdout.as_mut().unwrap().read_exact(&mut b).is_err() {
            return Outcome { verdict: V_HARNESS, msg: "a worker died".into(), ..Default::default() };
        }
        let mut msg = String::from_utf8_lossy(&m.msg[..m.msglen as usize]).to_string();
        if stat(m, "fault_wal_hole") > 0 && m.verdict == V_VIOLATION {
            msg = format!("[wal-hole] {msg}");
        }
        if m.verdict == V_TIMECAP && m.params[59] == 1 && stat(m, "fault_enospc") > 0 {
            msg = format!("[hang-close-full] {msg}");
        }
        Outcome {
            verdict: m.verdict,
            msg,
            trace_hash: m.trace_hash,
            sched_hash: m.sched_hash,
            choices: Vec::new(),
            chlost: m.chlost,
            nops: m.params[63].max(0) as usize,
            trace: String::new(),
            points: m.points,
            epochs: m.epoch,
        }
    }
    /// As `run`, with the choices made and the trace.
    pub fn run_full(&mut self, j: &JobSpec) -> Outcome {
        let mut o = self.run(j);
        let m = self.shm();
        o.choices = m.ch[..m.nch as usize].to_vec();
        o.trace = String::from_utf8_lossy(&m.tr[..m.trlen as usize]).to_string();
        o
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        drop(self.child.stdin.take());
        let _ = self.child.kill();
        let _ = self.child.wait();
        let root = format!("{}.d", self.path);
        wipe(&root);
        let _ = std::fs::remove_dir(&root);
        let _ = std::fs::remove_file(&self.path);
    }
}

fn arg<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}
fn flag(a: &[String], k: &str) -> bool {
    a.iter().any(|x| x == k)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a, b.wrapping_add(77));
    r.next()
}

/// Leftovers of earlier runs that were killed.
fn sweep() {
    if let Ok(d) = std::fs::read_dir("/dev/shm") {
        for e in d.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if let Some(r) = n.strip_prefix("indrasim-") {
                let pid: i32 = r.split('-').next().unwrap_or("").parse().unwrap_or(0);
                if pid > 0 && unsafe { libc::kill(pid, 0) } != 0 {
                    let p = format!("/dev/shm/{n}");
                    if e.path().is_dir() {
                        wipe(&p);
                        let _ = std::fs::remove_dir(&p);
                    } else {
                        let _ = std::fs::remove_file(&p);
                    }
                }
            }
        }
    }
}

#[derive(Default)]
struct Agg {
    runs: u64,
    by_scen: BTreeMap<u32, u64>,
    stats: Vec<u64>,
    sched: HashSet<u64>,
    distinct: HashSet<u64>,
    nontrivial: u64,
    inconclusive: u64,
    harness: Vec<String>,
    known: BTreeMap<String, (u64, String)>,
    found: Option<(JobSpec, Outcome)>,
    cov: Vec<u8>,
    points: u64,
    simtime: u64,
    max_points: u64,
    samples: Vec<Value>,
    selfchecks: u64,
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}
/// Lines `known: property=<id> sig="<substring>" <what fails>`.
fn known_findings(verif: &str) -> Vec<Known> {
    let mut v = Vec::new();
    let s = std::fs::read_to_string(format!("{verif}/known-findings.txt")).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (p, r) = r.split_once(' ').unwrap_or((r, ""));
            if let Some(r) = r.trim().strip_prefix("sig=\"") {
                if let Some((sig, t)) = r.split_once('"') {
                    v.push(Known { property: p.into(), sig: sig.into(), text: t.trim().into() });
                }
            }
        }
    }
    v
}

pub fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    sweep();
    let prop = arg(a, "--prop").unwrap_or("C01").to_string();
    let tier = arg(a, "--tier").map(|s| s.to_string()).unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
    let verif = arg(a, "--verif").unwrap_or("/verif").to_string();
    let vseed: u64 = arg(a, "--seed").map(|s| s.to_string()).or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(plan) = scen::plan(&prop) else {
        eprintln!("no check for {prop}");
        return 2;
    };
    let thorough = tier == "thorough";
    let secs: u64 = arg(a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { plan.thorough_secs } else { plan.quick_cap });
    let runs: u64 = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { u64::MAX } else { plan.quick_runs });
    let nw: usize = arg(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8));
    let keep = flag(a, "--keep-going");
    let base = mix(vseed, 0x5eed ^ prop.bytes().fold(0u64, |h, b| h * 131 + b as u64));
    let known: Vec<Known> = known_findings(&verif).into_iter().filter(|k| k.property == prop).collect();

    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg { stats: vec![0; NSTAT], cov: vec![0; COVCAP], ..Default::default() });
    let deadline = t0 + Duration::from_secs(secs);
    let total_w: u32 = plan.mix.iter().map(|x| x.1).sum();
    let all = Mutex::new(BTreeMap::<String, (u64, JobSpec, Outcome)>::new());
    std::thread::scope(|s| {
        for w in 0..nw {
            let (next, stop, agg, plan, known, all) = (&next, &stop, &agg, &plan, &known, &all);
            s.spawn(move || {
                let mut wk = Worker::new(w);
                loop {
                    if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= runs {
                        break;
                    }
                    let seed = mix(base, i);
                    let mut k = (mix(seed, 99) % total_w as u64) as u32;
                    let mut sc = plan.mix[0].0;
                    for (id, w) in &plan.mix {
                        if k < *w {
                            sc = *id;
                            break;
                        }
                        k -= w;
                    }
                    let job = JobSpec { scen: scen::index(sc), seed, sseed: mix(seed, 7), params: plan.params.clone(), ..Default::default() };
                    let mut o = wk.run(&job);
                    let m = wk.shm();
                    // Now and then the same run again: it must be identical.
                    let mut selfchecked = false;
                    if i % 97 == 5 && o.verdict != V_HARNESS {
                        let (st, sh, so, wh, mp) = (m.stats, m.simtime, m.points, m.work_hash, m.params);
                        let o2 = wk.run(&job);
                        selfchecked = true;
                        if o2.trace_hash != o.trace_hash || o2.verdict != o.verdict || o2.msg != o.msg {
                            o = Outcome { verdict: V_HARNESS, msg: format!("not deterministic: seed {seed} gave {:x} {} and {:x} {}", o.trace_hash, o.text(), o2.trace_hash, o2.text()), ..Default::default() };
                        }
                        m.stats = st;
                        m.simtime = sh;
                        m.points = so;
                        m.work_hash = wh;
                        m.params = mp;
                    }
                    let mut g = agg.lock().unwrap();
                    g.runs += 1;
                    g.selfchecks += selfchecked as u64;
                    *g.by_scen.entry(job.scen).or_default() += 1;
                    for (x, y) in g.stats.iter_mut().zip(m.stats.iter()) {
                        *x += *y;
                    }
                    for (x, y) in g.cov.iter_mut().zip(m.cov.iter()) {
                        *x |= *y;
                    }
                    g.points += m.points;
                    g.simtime += m.simtime;
                    g.max_points = g.max_points.max(m.points);
                    if o.verdict != V_HARNESS {
                        g.sched.insert(o.sched_hash);
                        if m.params[61] != 0 {
                            g.nontrivial += 1;
                            g.distinct.insert(o.trace_hash ^ m.work_hash);
                        }
                    }
                    if g.samples.len() < 4 && i % 53 == 1 {
                        g.samples.push(json!({"seed": seed, "scenario": SCENS[job.scen as usize].name, "schedule_seed": job.sseed,
                            "context_switches": m.stats[1], "preemptions": m.stats[2], "simulated_ms": m.simtime / 1_000_000, "scheduling_points": m.points,
                            "epochs": o.epochs + 1, "calls": m.stats[H_BASE + h::CALLS], "faults": faults_of(&m.stats), "trace_hash": format!("{:016x}", o.trace_hash)}));
                    }
                    match o.verdict {
                        V_OK => {}
                        V_INCONCLUSIVE => g.inconclusive += 1,
                        V_HARNESS => {
                            let t = format!("{} seed {seed} sseed {}: {}", SCENS[job.scen as usize].name, job.sseed, o.msg);
                            g.harness.push(t);
                            if g.harness.len() > 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        _ => {
                            let t = o.text();
                            if let Some(k) = known.iter().find(|k| t.contains(&k.sig)) {
                                let e = g.known.entry(k.text.clone()).or_insert((0, t));
                                e.0 += 1;
                            } else if keep {
                                let mut al = all.lock().unwrap();
                                let mut cls: String = t.lines().next().unwrap_or("").chars().take(90).collect();
                                cls = cls.split_whitespace().map(|w| if w.chars().any(|c| c.is_ascii_digit()) { "#" } else { w }).collect::<Vec<_>>().join(" ");
                                let e = al.entry(cls).or_insert((0, job.clone(), o.clone()));
                                e.0 += 1;
                            } else if g.found.is_none() {
                                g.found = Some((job.clone(), o.clone()));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut g = agg.into_inner().unwrap();
    if keep {
        let al = all.into_inner().unwrap();
        for (k, (n, j, o)) in &al {
            println!("{n} x {k}\n   scen {} seed {} sseed {}\n   {}", SCENS[j.scen as usize].name, j.seed, j.sseed, o.text().lines().take(40).collect::<Vec<_>>().join("\n   "));
        }
        if let Some((_, (_, j, o))) = al.into_iter().next() {
            g.found = Some((j, o));
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((job, o)) = g.found.clone() {
        violations = 1;
        code = 1;
        let path = if keep { String::from("-") } else { minimise(&verif, &prop, &job, &o, if thorough { 180 } else { 60 }) };
        if path.is_empty() {
            g.harness.push(format!("a violation did not repeat: {} seed {} sseed {}: {}", SCENS[job.scen as usize].name, job.seed, job.sseed, o.text()));
            code = 2;
            violations = 0;
        } else {
            println!("VIOLATION property={prop} replay={path}");
        }
    } else if g.harness.len() > 0 {
        code = 2;
    }
    for h in g.harness.iter().take(5) {
        println!("ERROR of the check: {h}");
    }
    for k in &known {
        let n = g.known.get(&k.text).map(|x| x.0).unwrap_or(0);
        println!("KNOWN-FINDING: property={prop} {} (seen in {n} runs)", k.text);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = evidence(&prop, &tier, vseed, &g, &plan, search_s, wall, violations, nw);
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{prop} {tier}: {} runs ({} distinct and non-trivial) in {:.1} s, {:.0} runs/hour, simulated {:.0} s, {} preemptions, {} calls, violations {violations}, inconclusive {}, exit {code}",
        g.runs,
        g.distinct.len(),
        search_s,
        g.runs as f64 * 3600.0 / search_s,
        g.simtime as f64 / 1e9,
        g.stats[2],
        g.stats[H_BASE],
        g.inconclusive
    );
    code
}

fn faults_of(st: &[u64]) -> Value {
    let mut m = serde_json::Map::new();
    for (i, n) in STAT_NAMES.iter().enumerate() {
        if (n.starts_with("fault_") || *n == "clock_jumps" || *n == "time_slips") && st[i] > 0 {
            m.insert(n.to_string(), json!(st[i]));
        }
    }
    Value::Object(m)
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, g: &Agg, plan: &scen::Plan, search_s: f64, wall: f64, violations: u64, nw: usize) -> Value {
    let mut other = serde_json::Map::new();
    for (i, n) in STAT_NAMES.iter().enumerate() {
        if !n.starts_with("fault_") {
            other.insert(n.to_string(), json!(g.stats[i]));
        }
    }
    for (i, n) in H_NAMES.iter().enumerate() {
        other.insert(n.to_string(), json!(g.stats[H_BASE + i]));
    }
    let by: serde_json::Map<String, Value> = g.by_scen.iter().map(|(k, v)| (SCENS[*k as usize].name.to_string(), json!(v))).collect();
    json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": g.runs,
            "distinct_nontrivial": g.distinct.len(),
            "rule": format!("Each case is one simulated execution drawn from one seed (workload, configuration, every scheduling decision and every fault). Non-trivial: {}. Distinct: a different hash over every context switch, I/O operation, fault and result of the run.", plan.nontrivial),
            "samples": g.samples,
            "nontrivial_runs": g.nontrivial,
            "runs_by_scenario": by,
            "runs_per_hour": (g.runs as f64 * 3600.0 / search_s) as u64,
            "seeds_per_hour": (g.runs as f64 * 3600.0 / search_s) as u64,
            "simulated_seconds": g.simtime as f64 / 1e9,
            "faults_injected": faults_of(&g.stats),
            "counters": other,
            "distinct_interleavings": g.sched.len(),
            "distinct_interleavings_measure": "hash of the sequence of (thread switched from, thread switched to, why)",
            "scheduling_points": g.points,
            "largest_run_points": g.max_points,
            "code_blocks_reached": g.cov.iter().filter(|x| **x != 0).count(),
            "runs_repeated_to_check_determinism": g.selfchecks,
            "inconclusive_runs": g.inconclusive,
            "workers": nw,
            "real_components": plan.real,
            "simulated_components": plan.stub,
            "known_findings_seen": g.known.iter().map(|(k, v)| json!({"finding": k, "runs": v.0, "example": v.1})).collect::<Vec<_>>(),
        },
        "assumptions": plan.assume,
    })
}

/// Shrinks a failing run: first the workload, then the schedule and the
/// faults. Returns the path of the replay file, or "" if it does not repeat.
fn minimise(verif: &str, prop: &str, job: &JobSpec, o: &Outcome, secs: u64) -> String {
    let end = Instant::now() + Duration::from_secs(secs);
    let mut wk = Worker::new(90);
    let first = wk.run_full(job);
    if first.trace_hash != o.trace_hash || !first.bad() {
        return String::new();
    }
    let class = first.class();
    let mut best = job.clone();
    let mut bo = first.clone();
    let n = first.nops;
    let hit = |o: &Outcome| o.bad() && o.class() == class && o.chlost == 0;
    // 1. drop workload steps, with a few schedules each time
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8);
    let mut pool: Vec<Worker> = (0..nw).map(|i| Worker::new(50 + i)).collect();
    let try_many = |pool: &mut Vec<Worker>, specs: Vec<JobSpec>| -> Option<(JobSpec, Outcome)> {
        let q = Mutex::new(specs.into_iter().enumerate().collect::<Vec<_>>().into_iter());
        let res: Mutex<Option<(usize, JobSpec, Outcome)>> = Mutex::new(None);
        std::thread::scope(|s| {
            for w in pool.iter_mut() {
                let (q, res) = (&q, &res);
                s.spawn(move || loop {
                    if res.lock().unwrap().is_some() || Instant::now() > end {
                        break;
                    }
                    let Some((i, j)) = q.lock().unwrap().next() else { break };
                    let o = w.run_full(&j);
                    if hit(&o) {
                        let mut r = res.lock().unwrap();
                        if r.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                            *r = Some((i, j, o));
                        }
                    }
                });
            }
        });
        res.into_inner().unwrap().map(|x| (x.1, x.2))
    };
    if n > 0 && n < MAXDROP {
        let mut left: Vec<u32> = (0..n as u32).collect();
        let mut chunk = left.len().div_ceil(2);
        while chunk >= 1 && Instant::now() < end - Duration::from_secs(secs / 3) {
            let mut i = 0;
            let mut any = false;
            while i < left.len() && Instant::now() < end - Duration::from_secs(secs / 3) {
                let cand: Vec<u32> = left.iter().enumerate().filter(|(k, _)| *k < i || *k >= i + chunk).map(|x| *x.1).collect();
                let drops: Vec<u32> = (0..n as u32).filter(|x| !cand.contains(x)).collect();
                let mut specs = Vec::new();
                for t in 0..24u64 {
                    specs.push(JobSpec { drops: drops.clone(), sseed: if t == 0 { best.sseed } else { mix(best.sseed, t + 1000 * chunk as u64) }, ..best.clone() });
                }
                if let Some((j, o)) = try_many(&mut pool, specs) {
                    best = j;
                    bo = o;
                    left = cand;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 && !any {
                break;
            }
            chunk = if chunk == 1 { 1 } else { chunk.div_ceil(2) };
        }
    }
    // 2. drop scheduling and fault choices
    let mut ch = bo.choices.clone();
    let rep = |c: &Vec<ChoiceRec>| JobSpec { replay: Some(c.clone()), ..best.clone() };
    let r0 = wk.run_full(&rep(&ch));
    if !hit(&r0) {
        // Cannot happen in a deterministic run; keep the seed itself.
        ch.clear();
    } else {
        let mut chunk = ch.len().div_ceil(2).max(1);
        while chunk >= 1 && Instant::now() < end && !ch.is_empty() {
            let mut i = 0;
            let mut any = false;
            while i < ch.len() && Instant::now() < end {
                // Try to drop any of the next few chunks.
                let mut specs = Vec::new();
                for k in 0..nw {
                    let a = i + k * chunk;
                    if a >= ch.len() {
                        break;
                    }
                    let c: Vec<ChoiceRec> = ch.iter().enumerate().filter(|(x, _)| *x < a || *x >= a + chunk).map(|x| *x.1).collect();
                    specs.push(rep(&c));
                }
                let ns = specs.len();
                if let Some((j, o)) = try_many(&mut pool, specs) {
                    // Only what the run really used.
                    let used = o.choices.clone();
                    let asked = j.replay.unwrap();
                    ch = if used.len() <= asked.len() { used } else { asked };
                    any = true;
                } else {
                    i += chunk * ns;
                }
            }
            if chunk == 1 && !any {
                break;
            }
            chunk = if chunk == 1 { 1 } else { chunk.div_ceil(2) };
        }
    }
    let use_seed = ch.is_empty() && !hit(&wk.run_full(&rep(&ch)));
    let mut fin = if use_seed { best.clone() } else { rep(&ch) };
    let f0 = wk.run_full(&fin);
    fin.trace = true;
    let f = wk.run_full(&fin);
    fin.trace = false;
    let f2 = wk.run_full(&fin);
    if !hit(&f) || f.trace_hash != f0.trace_hash || f2.trace_hash != f0.trace_hash {
        return String::new();
    }
    let sc = &SCENS[fin.scen as usize];
    let lines: Vec<&str> = f.trace.lines().collect();
    let cut = lines.len().saturating_sub(4000);
    let doc = json!({
        "property": prop, "scenario": sc.name, "seed": fin.seed.to_string(), "schedule_seed": fin.sseed.to_string(),
        "params": fin.params.iter().map(|(i, v)| json!([i, v])).collect::<Vec<_>>(),
        "dropped_steps": fin.drops,
        "choices": if use_seed { Value::Null } else { json!(ch.iter().map(|c| json!([c.idx, c.stream, c.val])).collect::<Vec<_>>()) },
        "choices_legend": "[index within stream, stream + 256*epoch, value]; streams: 0 preemption at a scheduling point, 1 next thread, 2 which waiter wakes, 3 time, 4 disk fault, 5 network, 6 crash image, 7 workload",
        "found_with": {"seed": job.seed.to_string(), "schedule_seed": job.sseed.to_string(), "steps": n, "choices": first.choices.len(), "message": first.text()},
        "violation": f.text(),
        "trace_hash": format!("{:016x}", f.trace_hash),
        "trace": lines[cut..],
    });
    let dir = format!("{verif}/out");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{:016x}.json", job.seed);
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").unwrap();
    println!("{}", f.text());
    println!("(found with {} workload steps and {} choices; minimised to {} and {})", n, first.choices.len(), n - fin.drops.len(), ch.len());
    path
}

/// Replays a file; exit 1 if it shows the same violation again, exactly.
pub fn replay(a: &[String]) -> i32 {
    let d: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("cannot read the replay file")).expect("not a replay file");
    let num = |v: &Value| v.as_str().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let name = d["scenario"].as_str().unwrap();
    let job = JobSpec {
        scen: scen::index(name),
        seed: num(&d["seed"]),
        sseed: num(&d["schedule_seed"]),
        params: d["params"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_i64().unwrap())).collect(),
        drops: d["dropped_steps"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(),
        replay: d["choices"].as_array().map(|v| v.iter().map(|x| ChoiceRec { idx: x[0].as_u64().unwrap() as u32, stream: x[1].as_u64().unwrap() as u32, val: x[2].as_u64().unwrap() as u32 }).collect()),
        trace: true,
    };
    let mut w = Worker::new(0);
    let o = w.run_full(&job);
    print!("{}", o.trace);
    println!("{}", o.text());
    if o.bad() {
        let same = d["trace_hash"].as_str() == Some(&format!("{:016x}", o.trace_hash)) && d["violation"].as_str() == Some(&o.text());
        println!("{}", if same { "the recorded execution, exactly" } else { "a violation, but not the recorded execution (the code has changed)" });
        println!("VIOLATION property={} replay={}", d["property"].as_str().unwrap_or(""), a[0]);
        1
    } else {
        println!("no violation (verdict {})", o.verdict);
        0
    }
}

/// One run, for looking at: one SCENARIO --seed N [--sseed N] [--trace] [--p I=V].
pub fn one(a: &[String]) -> i32 {
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let sseed: u64 = arg(a, "--sseed").and_then(|s| s.parse().ok()).unwrap_or_else(|| mix(seed, 7));
    let mut params = Vec::new();
    for i in 0..a.len() {
        if a[i] == "--p" {
            let (k, v) = a[i + 1].split_once('=').unwrap();
            params.push((k.parse().unwrap(), v.parse().unwrap()));
        }
    }
    let job = JobSpec { scen: scen::index(&a[0]), seed, sseed, params, trace: flag(a, "--trace"), ..Default::default() };
    let mut w = Worker::new(0);
    let t = Instant::now();
    let o = w.run_full(&job);
    print!("{}", o.trace);
    println!("verdict {} hash {:016x} points {} choices {} epochs {} in {:?}\n{}", o.verdict, o.trace_hash, o.points, o.choices.len(), o.epochs, t.elapsed(), o.text());
    let m = w.shm();
    for (i, n) in STAT_NAMES.iter().enumerate() {
        if m.stats[i] > 0 {
            print!("{n}={} ", m.stats[i]);
        }
    }
    for (i, n) in H_NAMES.iter().enumerate() {
        if m.stats[H_BASE + i] > 0 {
            print!("{n}={} ", m.stats[H_BASE + i]);
        }
    }
    println!("simtime={}ms", m.simtime / 1_000_000);
    0
}

/// Every scenario twice by seed and once by replaying its choices.
pub fn selftest(a: &[String]) -> i32 {
    let n: u64 = arg(a, "--n").and_then(|s| s.parse().ok()).unwrap_or(20);
    let only = arg(a, "--scen");
    let bad = AtomicU64::new(0);
    for (i, s) in SCENS.iter().enumerate() {
        if only.map(|o| o != s.name).unwrap_or(false) {
            continue;
        }
        let k = AtomicU64::new(0);
        let t = Instant::now();
        let pts = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for w in 0..8usize {
                let (k, bad, pts) = (&k, &bad, &pts);
                sc.spawn(move || {
                    let mut wa = Worker::new(w);
                    let mut wb = Worker::new(w + 8);
                    loop {
                        let x = k.fetch_add(1, Ordering::Relaxed);
                        if x >= n {
                            break;
                        }
                        let seed = mix(x, 4242);
                        let mut job = JobSpec { scen: i as u32, seed, sseed: mix(seed, 7), ..Default::default() };
                        let a = wa.run_full(&job);
                        let b = wb.run_full(&job);
                        pts.fetch_add(a.points, Ordering::Relaxed);
                        job.replay = Some(a.choices.clone());
                        let c = wb.run_full(&job);
                        if a.verdict == V_HARNESS || a.trace_hash != b.trace_hash || a.trace_hash != c.trace_hash || a.verdict != c.verdict || a.msg != b.msg {
                            bad.fetch_add(1, Ordering::Relaxed);
                            println!("{} seed {seed}: {} {:x} {} / {} {:x} {} / replay {} {:x} {}", SCENS[i].name, a.verdict, a.trace_hash, a.msg, b.verdict, b.trace_hash, b.msg, c.verdict, c.trace_hash, c.msg);
                        }
                    }
                });
            }
        });
        println!("{}: {n} runs x3, {} points per run, {:.1} s", s.name, pts.load(Ordering::Relaxed) / n.max(1), t.elapsed().as_secs_f64());
    }
    if bad.load(Ordering::Relaxed) > 0 {
        1
    } else {
        0
    }
}

fn stat(m: &Shm, name: &str) -> u64 {
    m.stats[STAT_NAMES.iter().position(|n| *n == name).unwrap()]
}
