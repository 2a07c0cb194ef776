//! Is there one sequential order of the calls that explains what they
//! returned? (Wing & Gong's search with memory of visited states.)
use crate::model::*;
use crate::rt::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ev {
    pub thread: u32,
    pub op: Op,
    /// None: the outcome is not known; it may have happened or not.
    pub res: Option<Res>,
    pub start: u64,
    pub end: u64,
    /// Must be part of the final prefix (see `Fin::Prefix`).
    pub durable: bool,
    /// Returned an error that leaves open whether it happened.
    pub maybe: bool,
}

#[derive(Clone, Copy)]
pub enum Fin<'a> {
    Any,
    End(&'a Graph),
    /// The state after some of the calls, in the order they took effect, and
    /// after all calls marked `durable`.
    Prefix(&'a Graph),
    /// The state at one of the syncs (whatever that returned), or the first
    /// one, after all calls marked `durable`.
    Image(&'a Graph),
}

pub enum Verdict {
    Yes,
    No(String),
    Unknown,
}

impl Graph {
    /// What a mutating call reports when it runs on this graph.
    pub fn expect(&self, op: &Op) -> Res {
        match op {
            Op::CreateV(v, _) => Res::Bool(!self.v.contains_key(v)),
            Op::CreateE(e) => Res::Bool(self.v.contains_key(&e.0) && self.v.contains_key(&e.2)),
            Op::Delete(q) => match self.value(q) {
                Err(k) => Res::Err(k, String::new()),
                Ok(Out::C(_)) => Res::Err(ErrK::OnQuery, String::new()),
                Ok(_) => Res::Unit,
            },
            Op::SetP(q, _, _) => match self.value(q) {
                Err(k) => Res::Err(k, String::new()),
                Ok(Out::V(_)) | Ok(Out::E(_)) => Res::Unit,
                Ok(_) => Res::Err(ErrK::OnQuery, String::new()),
            },
            _ => Res::Unit,
        }
    }
}

struct S<'a> {
    evs: &'a [Ev],
    fin: &'a Fin<'a>,
    seen: BTreeSet<(u128, u64, bool)>,
    steps: u64,
    budget: u64,
    best: (usize, String),
    must: u128,
    durable: u128,
}

struct Counting(DefaultHasher, u64);
impl Hasher for Counting {
    fn write(&mut self, b: &[u8]) {
        self.1 += b.len() as u64;
        self.0.write(b)
    }
    fn finish(&self) -> u64 {
        self.0.finish()
    }
}
impl<'a> S<'a> {
    fn go(&mut self, done: u128, g: &Graph, matched: bool) -> bool {
        let mut matched = matched;
        if let Fin::Image(f) = self.fin {
            if done == 0 && self.durable == 0 && *f == g {
                matched = true;
            }
        }
        if let Fin::Prefix(f) = self.fin {
            if !matched && done & self.durable == self.durable && *f == g {
                matched = true;
            }
        }
        if done & self.must == self.must {
            let ok = match self.fin {
                Fin::Any => true,
                Fin::End(f) => *f == g,
                Fin::Prefix(_) | Fin::Image(_) => matched,
            };
            if ok {
                return true;
            }
            let c = done.count_ones() as usize;
            if c + 1 > self.best.0 {
                let m = match self.fin {
                    Fin::End(f) | Fin::Prefix(f) | Fin::Image(f) => format!("all calls explained, but the final state differs: {}", g.diff(f)),
                    Fin::Any => String::new(),
                };
                self.best = (c + 1, m);
            }
        }
        let mut hs = Counting(DefaultHasher::new(), 0);
        g.hash(&mut hs);
        // Large graphs use the budget up faster.
        self.steps += 1 + hs.1 / 4000;
        if !self.seen.insert((done, hs.finish(), matched)) {
            return false;
        }
        if self.steps > self.budget {
            return false;
        }
        // The earliest end among calls not yet taken bounds who may go next.
        let mut bound = u64::MAX;
        for (i, e) in self.evs.iter().enumerate() {
            if done >> i & 1 == 0 && self.must >> i & 1 == 1 && e.end < bound {
                bound = e.end;
            }
        }
        // Calls that certainly happened are tried first.
        for (i, e) in (0..2).flat_map(|p| self.evs.iter().enumerate().filter(move |(_, e)| (e.res.is_none() || e.maybe) == (p == 1))) {
            if done >> i & 1 == 1 || e.start > bound {
                continue;
            }
            // An optional call cannot come after a call that began once it
            // had returned; its own end is known when it returned an error.
            if e.maybe && self.evs.iter().enumerate().any(|(j, f)| done >> j & 1 == 1 && f.start > e.end) {
                continue;
            }
            let r = match &e.res {
                Some(r) if !e.maybe => r.clone(),
                _ => g.expect(&e.op),
            };
            let nd = done | 1 << i;
            if e.op == Op::Sync {
                let m = match self.fin {
                    Fin::Image(f) => matched || (done & self.durable == self.durable && *f == g),
                    _ => matched,
                };
                match g.apply_ref(&e.op, &r) {
                    Ok(()) => {
                        if self.go(nd, g, m) {
                            return true;
                        }
                    }
                    Err(m) => self.note(done, e, m),
                }
            } else if e.op.is_read() {
                match g.apply_ref(&e.op, &r) {
                    Ok(()) => {
                        if self.go(nd, g, matched) {
                            return true;
                        }
                    }
                    Err(m) => self.note(done, e, m),
                }
            } else {
                let mut g2 = g.clone();
                match g2.apply(&e.op, &r) {
                    // Happening without effect is as good as not happening.
                    Ok(()) if (e.res.is_none() || e.maybe) && g2 == *g => {}
                    Ok(()) => {
                        if self.go(nd, &g2, matched) {
                            return true;
                        }
                    }
                    Err(m) => self.note(done, e, m),
                }
            }
        }
        false
    }
    fn note(&mut self, done: u128, e: &Ev, m: String) {
        let c = done.count_ones() as usize;
        if c + 1 > self.best.0 {
            self.best = (c + 1, format!("T{} {:?}: {m}", e.thread, e.op));
        }
    }
}
impl Graph {
    fn apply_ref(&self, op: &Op, r: &Res) -> Result<(), String> {
        match op {
            Op::Get(q) => self.check_query(q, r),
            Op::Sync => match r {
                Res::Unit => Ok(()),
                _ => Err(format!("expected sync to succeed, got {r:?}")),
            },
            _ => unreachable!(),
        }
    }
}

pub fn check(init: &Graph, evs: &[Ev], fin: Fin, budget: u64) -> Verdict {
    if evs.len() > 120 {
        return Verdict::Unknown;
    }
    let mut must = 0u128;
    let mut durable = 0u128;
    for (i, e) in evs.iter().enumerate() {
        if e.res.is_some() && !e.maybe {
            must |= 1 << i;
        }
        if e.durable {
            durable |= 1 << i;
        }
    }
    let mut s = S { evs, fin: &fin, seen: BTreeSet::new(), steps: 0, budget, best: (0, String::new()), must, durable };
    unsafe { sim_nopoint(1) };
    let ok = s.go(0, init, false);
    unsafe { sim_nopoint(-1) };
    hstat(h::LIN, s.steps);
    if ok {
        Verdict::Yes
    } else if s.steps > s.budget {
        hstat(h::SKIPPED, 1);
        Verdict::Unknown
    } else {
        Verdict::No(format!("no sequential order explains the calls; the longest attempt stops at {}\nhistory:\n{}", s.best.1, history(evs)))
    }
}

pub fn history(evs: &[Ev]) -> String {
    let mut v: Vec<&Ev> = evs.iter().collect();
    v.sort_by_key(|e| e.start);
    v.iter()
        .map(|e| {
            let end = if e.end == u64::MAX { "-".to_string() } else { e.end.to_string() };
            let r = e.res.as_ref().map(|r| format!("{r:?}")).unwrap_or("(unknown)".into());
            format!("  T{} [{}..{}] {:?} = {}{}{}", e.thread, e.start, end, e.op, r, if e.durable { " (synced)" } else { "" }, if e.maybe { " (may or may not have happened)" } else { "" })
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Overlapping pairs of calls in a history.
pub fn overlaps(evs: &[Ev]) -> u64 {
    let mut n = 0;
    for (i, a) in evs.iter().enumerate() {
        for b in &evs[i + 1..] {
            if a.thread != b.thread && a.start < b.end && b.start < a.end {
                n += 1;
            }
        }
    }
    n
}
