//! A fork server: every simulated process is a fresh fork of this one, with
//! the same memory, the same addresses and no environment.
use crate::rt::*;
use crate::scen;

pub fn map_shm(path: &str, create: bool) -> *mut Shm {
    unsafe {
        let c = std::ffi::CString::new(path).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CLOEXEC | if create { libc::O_CREAT | libc::O_TRUNC } else { 0 }, 0o600);
        assert!(fd >= 0, "cannot open {path}");
        let n = std::mem::size_of::<Shm>();
        if create {
            assert_eq!(libc::ftruncate(fd, n as i64), 0);
        }
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        libc::close(fd);
        p as *mut Shm
    }
}

fn set_msg(m: &mut Shm, v: u32, s: &str) {
    m.verdict = v;
    let b = s.as_bytes();
    let n = b.len().min(m.msg.len());
    m.msg[..n].copy_from_slice(&b[..n]);
    m.msglen = n as u32;
}

fn child(m: &'static mut Shm) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 100, rlim_max: 110 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    let s = &scen::SCENS[m.scenario as usize];
    std::panic::set_hook(Box::new(|i| {
        let t = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { sim_nopoint(1) };
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        *g = format!("{t} ({l})");
        drop(g);
        unsafe { sim_nopoint(-1) };
        tr!("panic: {t} ({l})");
    }));
    let job = scen::Job::new(m);
    // A thread of its own, so that its hash maps are keyed by the seed.
    unsafe { sim_entropy(job.sseed) };
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)(&job)));
            unsafe { sim_end() };
            r
        })
        .unwrap()
        .join()
        .unwrap_or_else(Err);
    let m = shm();
    match r {
        Ok(()) => m.verdict = V_OK,
        Err(e) => {
            let l = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
            set_msg(m, V_HARNESS, &format!("the harness panicked: {} {l}", panic_text(&e)));
        }
    }
    unsafe { libc::_exit(0) }
}

pub fn main(path: &str, cpu: usize) -> i32 {
    let p = map_shm(path, false);
    set_shm(p);
    unsafe {
        assert_eq!(sim_shm_size(), std::mem::size_of::<Shm>(), "Shm layouts differ");
        assert_eq!(sim_cfg_size(), std::mem::size_of::<SimCfg>(), "SimCfg layouts differ");
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut s);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    // Everything lazily created in the parent is the same for all children.
    scen::warm();
    let mut b = [0u8; 1];
    loop {
        let n = unsafe { libc::read(0, b.as_mut_ptr() as *mut _, 1) };
        if n != 1 {
            return 0;
        }
        let m = shm();
        let max = scen::SCENS[m.scenario as usize].epochs;
        loop {
            m.verdict = V_NONE;
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe {
                    if std::env::var_os("INDRASIM_DEBUG").is_none() {
                        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                        libc::dup2(n, 0);
                        libc::dup2(n, 1);
                        libc::dup2(n, 2);
                        libc::close(n);
                    }
                }
                child(unsafe { &mut *p });
            }
            let mut st = 0;
            unsafe {
                let pf = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
                let mut pfd = libc::pollfd { fd: pf, events: libc::POLLIN, revents: 0 };
                let mut stuck = false;
                if pf >= 0 {
                    let k = libc::poll(&mut pfd, 1, 240_000);
                    if k == 0 {
                        libc::kill(pid, libc::SIGKILL);
                        stuck = true;
                    }
                    libc::close(pf);
                }
                libc::waitpid(pid, &mut st, 0);
                if stuck {
                    set_msg(m, V_HARNESS, "the simulated process stopped outside the simulator's control");
                } else if libc::WIFSIGNALED(st) {
                    let sig = libc::WTERMSIG(st);
                    if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                        set_msg(m, V_HARNESS, &format!("the simulated process used up its CPU time or memory (signal {sig})"));
                    } else {
                        let l = "";
                        set_msg(m, V_VIOLATION, &format!("[crash] the process died of signal {sig} {l}"));
                    }
                } else if m.verdict == V_NONE {
                    set_msg(m, V_VIOLATION, &format!("[crash] the process exited with status {}", libc::WEXITSTATUS(st)));
                }
            }
            if m.verdict == V_CRASHED {
                m.epoch += 1;
                m.stats[H_BASE + h::EPOCHS] += 1;
                if m.epoch < max {
                    continue;
                }
                set_msg(m, V_HARNESS, "too many crash epochs");
            }
            break;
        }
        unsafe { libc::write(1, b".".as_ptr() as *const _, 1) };
    }
}
