//! The scenarios, and which of them decide which property.
use crate::rt::*;

pub mod fault;
pub mod hist;
pub mod ids;
pub mod net;
pub mod plug;
pub mod reads;
pub mod store;

pub struct Job {
    pub seed: u64,
    pub sseed: u64,
    pub epoch: u32,
}
impl Job {
    pub fn new(m: &'static mut Shm) -> Job {
        let j = Job { seed: m.seed, sseed: m.params[62] as u64, epoch: m.epoch };
        set_shm(m);
        j
    }
    /// The stream of workload choices; the same in every epoch.
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed, salt)
    }
    pub fn param(&self, i: usize) -> i64 {
        shm().params[i]
    }
    pub fn mask(&self, default: i64) -> i64 {
        if self.param(0) == 0 { default } else { self.param(0) }
    }
    /// Draws a schedule policy. The choice belongs to the workload seed.
    pub fn cfg(&self, span: u64) -> SimCfg {
        let mut r = self.rng(0xc0f1);
        let mut c = SimCfg::default();
        draw_policy(&mut c, &mut r, span);
        c.clock_base += (r.below(1 << 30) as i64) * 1_000_003;
        c
    }
    pub fn begin(&self, mut c: SimCfg) {
        c.seed = crate::orch::mix(self.sseed, self.epoch as u64 + 1);
        unsafe { sim_begin(shm(), &c) };
    }
}
pub fn nontrivial() {
    shm().params[61] = 1;
}

pub struct Scen {
    pub name: &'static str,
    pub run: fn(&Job),
    pub epochs: u32,
}

pub const SCENS: &[Scen] = &[
    Scen { name: "mem-lin", run: hist::mem_lin, epochs: 1 },
    Scen { name: "rocks-lin", run: store::rocks_lin, epochs: 1 },
    Scen { name: "rocks-kill", run: store::rocks_kill, epochs: 5 },
    Scen { name: "rocks-power", run: store::rocks_power, epochs: 5 },
    Scen { name: "img-kill", run: fault::img_kill, epochs: 5 },
    Scen { name: "img-power", run: fault::img_power, epochs: 5 },
    Scen { name: "img-fault", run: fault::img_fault, epochs: 1 },
    Scen { name: "rocks-fault", run: fault::rocks_fault, epochs: 1 },
    Scen { name: "rocks-fault-crash", run: fault::rocks_fault_crash, epochs: 2 },
    Scen { name: "open-kill", run: fault::open_kill, epochs: 7 },
    Scen { name: "open-power", run: fault::open_power, epochs: 7 },
    Scen { name: "probe", run: store::probe, epochs: 1 },
    Scen { name: "rocks-read", run: reads::rocks_read, epochs: 1 },
    Scen { name: "plugin-map", run: plug::plugin_map, epochs: 1 },
    Scen { name: "ids-mem", run: ids::ids_mem, epochs: 4 },
    Scen { name: "ids-rocks", run: ids::ids_rocks, epochs: 4 },
    Scen { name: "grpc-lin", run: net::grpc_lin, epochs: 1 },
    Scen { name: "grpc-fault", run: net::grpc_fault, epochs: 1 },
    Scen { name: "grpc-plugin", run: net::grpc_plugin, epochs: 1 },
    Scen { name: "grpc-serve", run: net::grpc_serve, epochs: 1 },
    Scen { name: "grpc-big", run: net::grpc_big, epochs: 1 },
    Scen { name: "img-fault-crash", run: fault::img_fault_crash, epochs: 5 },
    Scen { name: "grpc-crash", run: net::grpc_crash, epochs: 4 },
    Scen { name: "grpc-main", run: net::grpc_main, epochs: 4 },
    Scen { name: "grpc-anon", run: net::grpc_anon, epochs: 1 },
    Scen { name: "seq", run: store::seq, epochs: 1 },
    Scen { name: "seq-float", run: store::seq_float, epochs: 1 },
];

pub fn index(name: &str) -> u32 {
    SCENS.iter().position(|s| s.name == name).unwrap_or_else(|| panic!("no scenario {name}")) as u32
}

pub struct Plan {
    pub mix: Vec<(&'static str, u32)>,
    pub params: Vec<(usize, i64)>,
    pub quick_runs: u64,
    pub quick_cap: u64,
    pub thorough_secs: u64,
    pub nontrivial: &'static str,
    pub real: Vec<&'static str>,
    pub stub: Vec<&'static str>,
    pub assume: Vec<&'static str>,
}

const REAL_LIB: &str = "indradb-lib from /repo (Database, query engine, datastores), built from the working tree, release semantics";
const SIM_THREADS: &str = "pthread mutexes, condition variables, rwlocks, futexes, thread creation and joining: simulated, scheduled from the seed";
const SIM_TIME: &str = "clocks, sleeps and timeouts: simulated time";
const SIM_RANDOM: &str = "getrandom and other entropy: drawn from the seed";

pub fn plan(prop: &str) -> Option<Plan> {
    let base = |mix: Vec<(&'static str, u32)>, runs: u64| Plan {
        mix,
        params: vec![],
        quick_runs: runs,
        quick_cap: 150,
        thorough_secs: 1500,
        nontrivial: "",
        real: vec![REAL_LIB],
        stub: vec![SIM_THREADS, SIM_TIME, SIM_RANDOM],
        assume: vec![],
    };
    Some(match prop {
        "C01" => Plan { nontrivial: "at least two calls of different threads overlapped", ..base(vec![("mem-lin", 1)], 60000) },
        "C02" => Plan { nontrivial: "at least two calls of different threads overlapped", ..base(vec![("rocks-lin", 1)], 24000) },
        "C03" => Plan {
            nontrivial: "calls overlapped, the database crashed or was reopened",
            params: vec![(0, store::O_STRUCT | store::O_RESUR)],
            ..base(vec![("seq", 4), ("rocks-lin", 4), ("mem-lin", 2), ("rocks-kill", 1), ("rocks-power", 1)], 12000)
        },
        "C04" => Plan {
            nontrivial: "calls overlapped, the database crashed or was reopened",
            params: vec![(0, store::O_INDEX)],
            ..base(vec![("seq", 5), ("seq-float", 1), ("rocks-lin", 3), ("mem-lin", 2), ("rocks-kill", 1), ("rocks-power", 1)], 20000)
        },
        "C05" => Plan { nontrivial: "every run", params: vec![], ..base(vec![("seq", 200), ("probe", 1)], 20000) },
        "C06" => Plan { nontrivial: "the process was killed at least once", params: vec![(7, 1)], ..base(vec![("rocks-kill", 50), ("grpc-main", 1)], 7000) },
        "C07" => Plan { nontrivial: "the power failed at least once", params: vec![(7, 2)], ..base(vec![("rocks-power", 50), ("grpc-main", 1)], 7000) },
        "C08" => Plan { nontrivial: "the process was killed, the power failed or the disk failed at least once", params: vec![(7, 3)], ..base(vec![("img-kill", 20), ("img-power", 30), ("img-fault", 20), ("img-fault-crash", 20), ("grpc-main", 1)], 60000) },
        "C09" => Plan { nontrivial: "the disk failed at least once", params: vec![(7, 4)], ..base(vec![("rocks-fault", 24), ("rocks-fault-crash", 24), ("img-fault", 8), ("img-fault-crash", 8), ("grpc-main", 1)], 9000) },
        "C10" => Plan { nontrivial: "the process was killed or the power failed at least once", ..base(vec![("open-kill", 1), ("open-power", 1)], 8000) },
        "C17" => Plan { nontrivial: "the database was reopened at least once", params: vec![(1, 1), (2, 12)], ..base(vec![("seq", 1)], 5000) },
        "C11" => Plan { nontrivial: "calls of different clients overlapped", ..base(vec![("grpc-lin", 50), ("grpc-big", 1)], 25000) },
        "C12" => Plan { nontrivial: "a call failed on the way", ..base(vec![("grpc-fault", 24), ("grpc-anon", 3), ("grpc-crash", 1), ("grpc-main", 2)], 14000) },
        "C13" => Plan { nontrivial: "a client misbehaved, the datastore failed or calls overlapped", ..base(vec![("grpc-serve", 1)], 15000) },
        "C14" => Plan { nontrivial: "callbacks could fail, or overlap", ..base(vec![("plugin-map", 1)], 12000) },
        "C15" => Plan { nontrivial: "calls of different clients overlapped", ..base(vec![("grpc-plugin", 1)], 20000) },
        "C16" => Plan { nontrivial: "threads created vertices beside each other, or the process was restarted", ..base(vec![("ids-mem", 2), ("ids-rocks", 1)], 20000) },
        "C18" => Plan { nontrivial: "a query ran beside a write", ..base(vec![("rocks-read", 1)], 16000) },
        _ => return None,
    })
}

/// Touches whatever the process creates lazily, before the first fork.
pub fn warm() {
    let _ = crate::model::sym("warm");
    let db = sut::db::Db::mem();
    let _ = db.sync();
    net::preload();
}
