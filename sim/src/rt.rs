//! The Rust side of the simulator: job and result memory, configuration,
//! deterministic randomness for workloads, and the event log.
#![allow(dead_code)]
use std::sync::atomic::{AtomicU64, Ordering};

pub const MAXCH: usize = 1 << 20;
pub const MAXDROP: usize = 4096;
pub const EVCAP: usize = 160 << 20;
pub const TRCAP: usize = 8 << 20;
pub const NSTAT: usize = 192;
pub const COVCAP: usize = 1 << 18;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct ChoiceRec {
    pub idx: u32,
    pub stream: u32,
    pub val: u32,
}

#[repr(C)]
pub struct Shm {
    pub seed: u64,
    pub scenario: u32,
    pub epoch: u32,
    pub replay: u32,
    pub trace: u32,
    pub variant: u32,
    pub pad0: u32,
    pub params: [i64; 64],
    pub root: [u8; 256],
    pub nreplay: u32,
    pub ndrop: u32,
    pub drop: [u32; MAXDROP],
    pub rep: [ChoiceRec; MAXCH],
    pub verdict: u32,
    pub msglen: u32,
    pub msg: [u8; 65536],
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub points: u64,
    pub switches: u64,
    pub simtime: u64,
    pub work_hash: u64,
    pub stats: [u64; NSTAT],
    pub nch: u32,
    pub chlost: u32,
    pub ch: [ChoiceRec; MAXCH],
    pub cov: [u8; COVCAP],
    pub evlen: u64,
    pub ev: [u8; EVCAP],
    pub trlen: u64,
    pub tr: [u8; TRCAP],
}

pub const STAT_NAMES: &[&str] = &[
    "threads_created", "context_switches", "preemptions", "lock_waits", "condvar_waits", "futex_waits", "timeouts", "time_slips", "clock_jumps",
    "io_writes", "io_reads", "io_fsyncs", "io_renames", "io_unlinks", "io_opens", "io_bytes",
    "fault_enospc", "fault_eio_write", "fault_eio_read", "fault_eio_fsync", "fault_eio_open", "fault_eio_rename", "fault_short_write", "fault_short_read", "fault_eintr", "fault_torn_write",
    "fault_kill", "fault_power_loss", "lost_bytes", "lost_name_changes",
    "net_connections", "net_segments", "net_bytes", "fault_net_reset", "fault_net_stall", "fault_net_cut", "fault_net_short_read", "fault_net_short_write", "fault_net_refused", "fault_spurious_wakeup", "fault_accept",
    "fault_power_reorder", "fault_power_torn", "fault_wal_hole", "fault_eio_stat",
];
/// Counters of the harness itself start here.
pub const H_BASE: usize = 64;
pub const H_NAMES: &[&str] = &[
    "calls", "calls_failed", "queries", "mutations", "bulk_items", "reopens", "syncs", "audits", "lin_states", "crash_epochs",
    "client_errors", "plugin_calls", "mapper_calls", "generated_ids", "overlapping_calls", "faulted_calls", "repairs", "pages", "history_skipped",
];
pub mod h {
    pub const CALLS: usize = 0;
    pub const FAILED: usize = 1;
    pub const QUERIES: usize = 2;
    pub const MUTATIONS: usize = 3;
    pub const BULK: usize = 4;
    pub const REOPENS: usize = 5;
    pub const SYNCS: usize = 6;
    pub const AUDITS: usize = 7;
    pub const LIN: usize = 8;
    pub const EPOCHS: usize = 9;
    pub const CLIENT_ERR: usize = 10;
    pub const PLUGIN: usize = 11;
    pub const MAPPER: usize = 12;
    pub const GENIDS: usize = 13;
    pub const OVERLAP: usize = 14;
    pub const FAULTED: usize = 15;
    pub const REPAIRS: usize = 16;
    pub const PAGES: usize = 17;
    pub const SKIPPED: usize = 18;
}

pub const V_NONE: u32 = 0;
pub const V_OK: u32 = 1;
pub const V_VIOLATION: u32 = 2;
pub const V_CRASHED: u32 = 3;
pub const V_DEADLOCK: u32 = 4;
pub const V_TIMECAP: u32 = 5;
pub const V_STEPCAP: u32 = 6;
pub const V_HARNESS: u32 = 7;
pub const V_INCONCLUSIVE: u32 = 8;

pub const ST_DISK: u32 = 4;
pub const ST_NET: u32 = 5;
pub const ST_CRASH: u32 = 6;
pub const ST_WORK: u32 = 7;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimCfg {
    pub seed: u64,
    pub policy: u32,
    pub preempt_gap: u32,
    pub sync_weight: u32,
    pub pct_depth: u32,
    pub pct_span: u64,
    pub step_cap: u64,
    pub time_cap: u64,
    pub timeslip_ppm: u32,
    pub clockjump_ppm: u32,
    pub clock_base: i64,
    pub spurious_ppm: u32,
    pub ncpu: u32,
    pub shadow: u32,
    pub fsmode: u32,
    pub crash_kind: u32,
    pub clock_gran_us: u32,
    pub crash_io: u64,
    pub crash_point: u64,
    pub p_enospc: u32,
    pub p_eio_write: u32,
    pub p_eio_read: u32,
    pub p_eio_fsync: u32,
    pub p_eio_open: u32,
    pub p_eio_rename: u32,
    pub p_short_write: u32,
    pub p_short_read: u32,
    pub p_eintr: u32,
    pub p_eio_stat: u32,
    pub disk_cap: u64,
    pub net_lat_us: u32,
    pub net_jit_us: u32,
    pub p_net_short_read: u32,
    pub p_net_short_write: u32,
    pub p_net_stall: u32,
    pub p_net_reset: u32,
    pub p_net_refuse: u32,
    pub p_net_accept: u32,
    pub net_seg: u32,
    pub net_sndbuf: u32,
}

impl Default for SimCfg {
    fn default() -> Self {
        let mut c: SimCfg = unsafe { std::mem::zeroed() };
        c.preempt_gap = 200;
        c.sync_weight = 10;
        c.step_cap = 6_000_000_000;
        c.time_cap = 3600 * 1_000_000_000;
        c.clock_base = 1_700_000_000_000_000_000;
        c.ncpu = 4;
        c.disk_cap = u64::MAX;
        c.net_lat_us = 100;
        c.net_seg = 16384;
        c.net_sndbuf = 65536;
        c
    }
}

extern "C" {
    pub fn sim_begin(shm: *mut Shm, c: *const SimCfg);
    pub fn sim_end();
    pub fn sim_now() -> u64;
    pub fn sim_points() -> u64;
    pub fn sim_tid() -> i32;
    pub fn sim_point();
    pub fn sim_nopoint(d: i32);
    pub fn sim_yield();
    pub fn sim_choose(s: u32, n: u32, ppm: u32) -> u32;
    pub fn sim_choose_uniform(s: u32, n: u32) -> u32;
    pub fn sim_faults(on: i32);
    pub fn sim_disk_cap(v: u64);
    pub fn sim_io_ops() -> u64;
    pub fn sim_cfg() -> *mut SimCfg;
    pub fn sim_mix(a: u64, b: u64);
    pub fn sim_trace(s: *const u8, n: usize);
    pub fn sim_stat(i: i32, n: u64);
    pub fn sim_args(a: *const *const libc::c_char, n: i32) -> i32;
    pub fn sim_crash();
    pub fn sim_die(v: u32, s: *const u8, n: usize) -> !;
    pub fn sim_clock_shift(d: i64);
    pub fn sim_at_crash(delta: u64);
    pub fn sim_log(p: *const u8, n: usize);
    pub fn sim_net_partition(ns: u64);
    pub fn sim_net_reset(n: i32) -> i32;
    pub fn sim_shm_size() -> usize;
    pub fn sim_cfg_size() -> usize;
    pub fn sim_entropy(seed: u64);
}

static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn set_shm(p: *mut Shm) {
    unsafe { SHM = p }
}
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
pub fn hstat(i: usize, n: u64) {
    shm().stats[H_BASE + i] += n;
}

pub fn trace_on() -> bool {
    shm().trace != 0
}
pub fn trace(s: &str) {
    unsafe { sim_trace(s.as_ptr(), s.len()) }
}
#[macro_export]
macro_rules! tr {
    // Tracing must not add scheduling points.
    ($($a:tt)*) => {
        if $crate::rt::trace_on() {
            unsafe { $crate::rt::sim_nopoint(1) };
            let s = format!($($a)*);
            $crate::rt::trace(&s);
            unsafe { $crate::rt::sim_nopoint(-1) };
        }
    }
}
/// Ends the run with a violation. The first word in brackets names its class.
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { $crate::rt::die($crate::rt::V_VIOLATION, &format!($($a)*)) }
}
#[macro_export]
macro_rules! harness_bug {
    ($($a:tt)*) => { $crate::rt::die($crate::rt::V_HARNESS, &format!($($a)*)) }
}
pub fn die(v: u32, s: &str) -> ! {
    unsafe { sim_die(v, s.as_ptr(), s.len()) }
}

static STAMP: AtomicU64 = AtomicU64::new(1);
pub fn stamp() -> u64 {
    STAMP.fetch_add(1, Ordering::Relaxed)
}
pub fn set_stamp(v: u64) {
    STAMP.store(v, Ordering::Relaxed)
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: u64) -> Rng {
        let mut r = Rng(seed ^ salt.wrapping_mul(0xd6e8_feb8_6659_fd93));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// An index chosen with the given weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut k = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                return i;
            }
            k -= x;
        }
        0
    }
}

pub fn log_event(b: &[u8]) {
    unsafe { sim_log(b.as_ptr(), b.len()) }
}
pub fn events() -> Vec<Vec<u8>> {
    let m = shm();
    let mut v = Vec::new();
    let mut i = 0usize;
    while i + 4 <= m.evlen as usize {
        let n = u32::from_le_bytes([m.ev[i], m.ev[i + 1], m.ev[i + 2], m.ev[i + 3]]) as usize;
        v.push(m.ev[i + 4..i + 4 + n].to_vec());
        i += 4 + n;
    }
    v
}

pub fn dropped(id: u32) -> bool {
    let m = shm();
    m.drop[..m.ndrop as usize].contains(&id)
}
/// Tells the minimiser how many workload steps this run has.
pub fn set_nops(n: usize) {
    shm().params[63] = n as i64;
}

pub fn now() -> u64 {
    unsafe { sim_now() }
}
pub fn faults(on: bool) {
    unsafe { sim_faults(on as i32) }
}
pub fn cfg() -> &'static mut SimCfg {
    unsafe { &mut *sim_cfg() }
}

/// Runs the closures on threads of their own and waits for all of them.
pub fn parallel(fs: Vec<Box<dyn FnOnce() + Send>>) {
    let hs: Vec<_> = fs
        .into_iter()
        .enumerate()
        .map(|(i, f)| std::thread::Builder::new().name(format!("w{i}")).spawn(f).unwrap())
        .collect();
    for h in hs {
        if let Err(e) = h.join() {
            let m = panic_text(&e);
            fail!("[panic] a worker thread panicked: {m}");
        }
    }
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// The last panic message and where it came from.
pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(panic_text(&e)),
    }
}

/// A policy and its strength, drawn from the seed.
pub fn draw_policy(c: &mut SimCfg, r: &mut Rng, span: u64) {
    match r.weighted(&[55, 40, 5]) {
        0 => {
            c.policy = 0;
            c.preempt_gap = *r.pick(&[15, 40, 100, 300, 1000, 4000]);
        }
        1 => {
            c.policy = 1;
            c.pct_depth = r.range(1, 6) as u32;
            c.pct_span = span;
        }
        _ => c.policy = 2,
    }
    c.sync_weight = *r.pick(&[1, 5, 20, 60]);
    c.spurious_ppm = *r.pick(&[0, 0, 2000]);
    c.ncpu = *r.pick(&[2, 4, 8]);
}

/// How many faults that can make a call fail have happened.
pub fn hard_faults() -> u64 {
    (16..=21).map(|i| shm().stats[i]).sum::<u64>() + shm().stats[STAT_NAMES.iter().position(|n| *n == "fault_eio_stat").unwrap()]
}
