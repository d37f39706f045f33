//! The simulated operating system.
//!
//! Real OS threads run real code, but exactly one of them holds the baton.  Every operation through which threads
//! interact with the system (thread creation / end / join, futex, yield, sleep, clock, entropy) is interposed at link
//! time and emulated here; library code compiled with sancov instrumentation calls [`mem_point`] at every basic block,
//! load and store, so that the scheduler can also preempt in the middle of any piece of code.
//!
//! All decisions are taken by one seeded generator (or by an explicit trace in replay mode) and are numbered by the
//! global count of points passed, so a run is a pure function of (program, configuration).
#![allow(static_mut_refs)]

pub mod shim;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 48;
pub const NONE: u32 = u32::MAX;
const GUARD: u32 = 1 << 30;

// ------------------------------------------------------------------------------------------------ small PRNG
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(mix(s ^ 0x5851_f42d_4c95_7f2d))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(a.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b.rotate_left(17) ^ 0x1234_5678_9abc_def1)
}

// ------------------------------------------------------------------------------------------------ configuration
#[derive(Clone, Debug, PartialEq)]
pub enum Strategy {
    /// continue the current thread until it blocks; explicit deviations from `trace`
    Replay,
    /// never preempt
    Seq,
    /// preempt at geometrically distributed gaps of points; at synchronisation points with probability psync/1024
    Rand { gap: u64, psync: u64, from: u64, to: u64 },
    /// PCT: random priorities with `d` priority change points within `len` points
    Pct { d: u64, len: u64 },
    /// round robin with a fixed quantum
    Rr { quantum: u64 },
    /// as Rand, but one thread is starved for `len` points
    Starve { victim: u64, len: u64, gap: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u8)]
pub enum Fk {
    /// n-th entropy request answers EINTR
    Eintr = 0,
    /// n-th entropy request answers only `arg` bytes
    Short = 1,
    /// n-th futex wait wakes up spuriously
    Spurious = 2,
    /// at the n-th clock reading the clock has jumped forward by `arg` ms
    ClockJump = 3,
    /// the n-th user callback panics
    Panic = 4,
    /// the n-th random word drawn is replaced (arg: 0 = all zero bits, 1 = all one bits, else that value)
    Draw = 5,
    /// the n-th futex wake is delayed: the woken thread stalls for `arg` points before it may run
    Stall = 6,
}
pub const FK: [Fk; 7] = [Fk::Eintr, Fk::Short, Fk::Spurious, Fk::ClockJump, Fk::Panic, Fk::Draw, Fk::Stall];
pub const FK_NAMES: [&str; 7] = [
    "entropy_eintr",
    "entropy_short_read",
    "futex_spurious_wake",
    "clock_jump",
    "callback_panic",
    "extreme_random_draw",
    "stalled_thread",
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub kind: Fk,
    pub n: u64,
    pub arg: u64,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub strategy: Strategy,
    pub seed: u64,
    pub trace: Vec<(u64, u32)>,
    pub faults: Vec<Fault>,
    pub entropy: u64,
    pub clock_base_ns: u64,
    pub ns_per_point: u64,
    pub budget: u64,
    pub ncpu: u64,
    /// invert this bit of the bytes delivered to generators (getrandom system calls)
    pub flip: Option<u64>,
}
impl Config {
    pub fn plain(entropy: u64) -> Config {
        Config {
            strategy: Strategy::Seq,
            seed: 1,
            trace: vec![],
            faults: vec![],
            entropy,
            clock_base_ns: 1_600_000_000_000_000_000,
            ns_per_point: 3,
            budget: DEFAULT_BUDGET,
            ncpu: 4,
            flip: None,
        }
    }
}
pub const DEFAULT_BUDGET: u64 = 8_000_000_000;

// ------------------------------------------------------------------------------------------------ state
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Free,
    Run,
    /// waiting on a futex address, optionally with a deadline
    Futex(usize, Option<u64>),
    Sleep(u64),
    Join(usize),
    Done,
}

struct Thr {
    st: St,
    go: AtomicU32,
    pthread: u64,
    timed_out: bool,
    prio: u64,
    seq: u64,
    stalled_until: u64,
    dtor_round: u32,
}

pub struct Sim {
    thr: Vec<Thr>,
    cur: usize,
    cfg: Config,
    rng: Rng,
    trace_i: usize,
    devs: Vec<(u64, u32)>,
    fault_cnt: [u64; 7],
    fault_fired: [u64; 7],
    fault_any: [bool; 7],
    pub switches: u64,
    pub preempts: u64,
    pub hash: u64,
    pub sig: u64,
    pct: Vec<u64>,
    jump_ns: u64,
    seq: u64,
    entropy: Rng,
    sys_bytes: u64,
    quiet: bool,
    last_pc: usize,
    pub cover: Vec<u32>,
    pub created: u64,
    pub futex_waits: u64,
    pub yields: u64,
    pub getrandoms: u64,
    pub clocks: u64,
    pub callbacks: u64,
    pub logs: u64,
    pub draws: u64,
}

static mut ACTIVE: bool = false;
static mut PT: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut SIM: *mut Sim = std::ptr::null_mut();
static mut KEY: u32 = 0;
static mut KEY_OK: bool = false;
static mut ABNORMAL: Option<fn(&str, &str) -> !> = None;

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NONE) };
}

struct SyncCell<T>(UnsafeCell<T>);
unsafe impl<T> Sync for SyncCell<T> {}
static PANIC_MSG: SyncCell<Option<String>> = SyncCell(UnsafeCell::new(None));

#[inline(always)]
fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline(always)]
fn tid() -> u32 {
    TID.with(|t| t.get())
}
#[inline(always)]
fn in_sim() -> bool {
    unsafe { ACTIVE && tid() < MAXT as u32 }
}
struct Guard(u32);
impl Guard {
    #[inline(always)]
    fn enter() -> Guard {
        let t = tid();
        TID.with(|c| c.set(t | GUARD));
        Guard(t)
    }
}
impl Drop for Guard {
    #[inline(always)]
    fn drop(&mut self) {
        TID.with(|c| c.set(self.0));
    }
}

// ------------------------------------------------------------------------------------------------ raw system calls
#[inline(always)]
pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn raw_wait(w: &AtomicU32, v: u32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAIT as usize | 128, v as usize, 0, 0, 0);
    }
}
fn raw_wake(w: &AtomicU32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0);
    }
}

// ------------------------------------------------------------------------------------------------ scheduler
impl Sim {
    fn new(cfg: Config) -> Sim {
        let mut thr = Vec::with_capacity(MAXT);
        for _ in 0..MAXT {
            thr.push(Thr {
                st: St::Free,
                go: AtomicU32::new(0),
                pthread: 0,
                timed_out: false,
                prio: 0,
                seq: 0,
                stalled_until: 0,
                dtor_round: 0,
            });
        }
        let rng = Rng::new(mix2(cfg.seed, 77));
        let entropy = Rng::new(mix2(cfg.entropy, 0xe1));
        let mut fault_any = [false; 7];
        for f in &cfg.faults {
            fault_any[f.kind as usize] = true;
        }
        let mut s = Sim {
            thr,
            cur: 0,
            cfg,
            rng,
            trace_i: 0,
            devs: Vec::new(),
            fault_cnt: [0; 7],
            fault_fired: [0; 7],
            fault_any,
            switches: 0,
            preempts: 0,
            hash: 0x1357,
            sig: 0x2468,
            pct: vec![],
            jump_ns: 0,
            seq: 0,
            entropy,
            sys_bytes: 0,
            quiet: false,
            last_pc: 0,
            cover: vec![],
            created: 0,
            futex_waits: 0,
            yields: 0,
            getrandoms: 0,
            clocks: 0,
            callbacks: 0,
            logs: 0,
            draws: 0,
        };
        s.thr[0].st = St::Run;
        s.thr[0].prio = s.rng.next() | 1 << 32;
        if let Strategy::Pct { d, len } = s.cfg.strategy {
            for _ in 0..d {
                let p = s.rng.below(len.max(1));
                s.pct.push(p);
            }
            s.pct.sort_unstable_by(|a, b| b.cmp(a)); // pop from the end
        }
        s
    }
    #[inline]
    fn pt(&self) -> u64 {
        unsafe { PT }
    }
    fn tick(&mut self) {
        unsafe { PT += 1 }
        if self.pt() >= self.cfg.budget {
            abnormal("no-progress", &format!("step budget of {} points exhausted", self.cfg.budget));
        }
    }
    fn geo(&mut self, gap: u64) -> u64 {
        let u = 1.0 - self.rng.f();
        1 + (-(u.ln()) * gap as f64).min(1e15) as u64
    }
    fn plan(&mut self) {
        let pt = self.pt();
        // runs much longer than expected are preempted ever more rarely
        let coarse = 1u64 << (self.preempts / 50_000).min(20);
        let n = if self.quiet {
            u64::MAX
        } else {
            match self.cfg.strategy.clone() {
                Strategy::Replay => {
                    while self.trace_i < self.cfg.trace.len() && self.cfg.trace[self.trace_i].0 <= pt {
                        self.trace_i += 1;
                    }
                    self.cfg.trace.get(self.trace_i).map_or(u64::MAX, |x| x.0)
                }
                Strategy::Seq => u64::MAX,
                Strategy::Rand { gap, from, to, .. } => {
                    if pt >= to {
                        u64::MAX
                    } else {
                        pt.max(from) + self.geo(gap * coarse)
                    }
                }
                Strategy::Starve { gap, .. } => pt + self.geo(gap * coarse),
                Strategy::Pct { .. } => self.pct.last().map_or(u64::MAX, |x| (*x).max(pt + 1)),
                Strategy::Rr { quantum } => pt + quantum.max(1) * coarse,
            }
        };
        unsafe { NEXT = n.min(self.cfg.budget) }
    }
    fn runnable(&self, t: usize) -> bool {
        t < MAXT && self.thr[t].st == St::Run
    }
    fn stalled(&self, t: usize) -> bool {
        self.thr[t].stalled_until > self.pt()
    }
    /// next runnable thread in cyclic order after the current one (not the current one itself)
    fn cyclic(&self, from: usize) -> Option<usize> {
        let mut second = None;
        for k in 1..MAXT {
            let t = (from + k) % MAXT;
            if self.runnable(t) {
                if !self.stalled(t) {
                    return Some(t);
                }
                second = second.or(Some(t));
            }
        }
        second
    }
    fn others(&self) -> Vec<usize> {
        let mut v: Vec<usize> =
            (0..MAXT).filter(|&t| t != self.cur && self.runnable(t) && !self.stalled(t)).collect();
        if let Strategy::Starve { victim, len, .. } = self.cfg.strategy {
            if self.pt() < len && !self.quiet {
                let w: Vec<usize> = v.iter().copied().filter(|&t| t as u64 != victim).collect();
                if !w.is_empty() {
                    v = w;
                }
            }
        }
        v
    }
    /// in replay mode: the decision recorded for this very point
    fn traced(&mut self) -> Option<usize> {
        if self.cfg.strategy != Strategy::Replay || self.quiet {
            return None;
        }
        let pt = self.pt();
        while self.trace_i < self.cfg.trace.len() && self.cfg.trace[self.trace_i].0 < pt {
            self.trace_i += 1;
        }
        match self.cfg.trace.get(self.trace_i) {
            Some(&(p, t)) if p == pt => {
                self.trace_i += 1;
                Some(t as usize)
            }
            _ => None,
        }
    }
    /// whom to run when the current thread cannot (blocked, finished) or will not (yield) continue
    fn choose(&mut self, allow_cur: bool) -> Option<usize> {
        let default = self.cyclic(self.cur);
        let default = match default {
            Some(d) => d,
            None => return if allow_cur { Some(self.cur) } else { None },
        };
        if self.quiet {
            return Some(default);
        }
        if self.cfg.strategy == Strategy::Replay {
            let t = self.traced();
            self.plan();
            return Some(match t {
                Some(t) if self.runnable(t) && (t != self.cur || allow_cur) => {
                    self.devs.push((self.pt(), t as u32));
                    t
                }
                _ => default,
            });
        }
        let pick = match self.cfg.strategy.clone() {
            Strategy::Rand { .. } => {
                let o = self.others();
                if o.is_empty() || self.rng.below(4) == 0 {
                    default
                } else {
                    o[self.rng.below(o.len() as u64) as usize]
                }
            }
            Strategy::Starve { .. } => {
                let o = self.others();
                if o.is_empty() {
                    default
                } else {
                    o[self.rng.below(o.len() as u64) as usize]
                }
            }
            Strategy::Pct { .. } => {
                let o = self.others();
                o.into_iter().max_by_key(|&t| self.thr[t].prio).unwrap_or(default)
            }
            _ => default,
        };
        if pick != default {
            self.devs.push((self.pt(), pick as u32));
        }
        Some(pick)
    }
    fn switch(&mut self, to: usize) {
        let from = self.cur;
        if to == from {
            return;
        }
        self.handover(to);
        let me = &self.thr[from].go;
        loop {
            if me.load(Ordering::Acquire) == 1 {
                me.store(0, Ordering::Relaxed);
                break;
            }
            raw_wait(me, 0);
        }
    }
    /// give the baton away without waiting to get it back
    fn handover(&mut self, to: usize) {
        self.switches += 1;
        self.hash = mix2(self.hash, mix2(self.pt(), (self.cur as u64) << 32 | to as u64));
        self.sig = mix2(self.sig, mix2(self.last_pc as u64, (self.cur as u64) << 32 | to as u64));
        self.cur = to;
        self.thr[to].go.store(1, Ordering::Release);
        raw_wake(&self.thr[to].go);
    }
    /// a planned preemption point has been reached
    fn preempt(&mut self) {
        if self.pt() >= self.cfg.budget {
            abnormal("no-progress", &format!("step budget of {} points exhausted", self.cfg.budget));
        }
        let to = match self.cfg.strategy.clone() {
            Strategy::Replay => self.traced(),
            Strategy::Seq => None,
            Strategy::Rand { .. } | Strategy::Starve { .. } => {
                let o = self.others();
                if o.is_empty() {
                    None
                } else {
                    Some(o[self.rng.below(o.len() as u64) as usize])
                }
            }
            Strategy::Pct { .. } => {
                while self.pct.last().map_or(false, |x| *x <= self.pt()) {
                    self.pct.pop();
                }
                let low = self.pct.len() as u64;
                self.thr[self.cur].prio = low;
                self.others().into_iter().max_by_key(|&t| self.thr[t].prio)
            }
            Strategy::Rr { .. } => self.others().first().map(|_| self.cyclic(self.cur).unwrap()),
        };
        if let Some(t) = to {
            if t != self.cur && self.runnable(t) {
                self.devs.push((self.pt(), t as u32));
                self.preempts += 1;
                self.plan();
                self.switch(t);
                return;
            }
        }
        self.plan();
    }
    /// optional preemption after a synchronisation operation
    fn sync(&mut self) {
        self.tick();
        if self.quiet {
            return;
        }
        if self.pt() >= unsafe { NEXT } {
            self.preempt();
            return;
        }
        let to = match self.cfg.strategy.clone() {
            Strategy::Rand { psync, from, to, .. } => {
                if self.pt() >= from && self.pt() < to && self.rng.below(1024) < psync {
                    let o = self.others();
                    if o.is_empty() {
                        None
                    } else {
                        Some(o[self.rng.below(o.len() as u64) as usize])
                    }
                } else {
                    None
                }
            }
            Strategy::Starve { victim, len, .. } => {
                if self.cur as u64 == victim && self.pt() < len {
                    let o = self.others();
                    if o.is_empty() {
                        None
                    } else {
                        Some(o[self.rng.below(o.len() as u64) as usize])
                    }
                } else {
                    None
                }
            }
            Strategy::Pct { .. } => {
                let me = self.thr[self.cur].prio;
                self.others().into_iter().max_by_key(|&t| self.thr[t].prio).filter(|&t| self.thr[t].prio > me)
            }
            _ => None,
        };
        if let Some(t) = to {
            self.devs.push((self.pt(), t as u32));
            self.preempts += 1;
            self.switch(t);
        }
    }
    fn now(&self) -> u64 {
        self.cfg.clock_base_ns + self.pt() * self.cfg.ns_per_point + self.jump_ns
    }
    /// timers whose time has come
    fn expire(&mut self) {
        let now = self.now();
        for t in 0..MAXT {
            match self.thr[t].st {
                St::Futex(_, Some(d)) | St::Sleep(d) if d <= now => {
                    self.thr[t].st = St::Run;
                    self.thr[t].timed_out = true;
                }
                _ => {}
            }
        }
    }
    /// the current thread has been given a waiting state: run others until it is runnable again
    fn block(&mut self) {
        let me = self.cur;
        self.tick();
        loop {
            self.expire();
            let now = self.now();
            if self.runnable(me) && self.cyclic(me).is_none() {
                return;
            }
            match self.choose(false) {
                Some(t) => {
                    self.switch(t);
                    return; // we only get the baton back when runnable
                }
                None => {
                    // nobody can run: advance the clock to the earliest deadline
                    let mut best: Option<u64> = None;
                    for t in 0..MAXT {
                        match self.thr[t].st {
                            St::Futex(_, Some(d)) | St::Sleep(d) => best = Some(best.map_or(d, |b| b.min(d))),
                            _ => {}
                        }
                    }
                    match best {
                        Some(d) => self.jump_ns += d.saturating_sub(now),
                        None => {
                            let d: Vec<String> = (0..MAXT)
                                .filter(|&t| self.thr[t].st != St::Free && self.thr[t].st != St::Done)
                                .map(|t| {
                                    format!(
                                        "t{}:{}",
                                        t,
                                        match self.thr[t].st {
                                            St::Futex(..) => "futex",
                                            St::Join(_) => "join",
                                            St::Run => "run",
                                            _ => "?",
                                        }
                                    )
                                })
                                .collect();
                            abnormal("deadlock", &format!("all threads blocked: {}", d.join(" ")));
                        }
                    }
                }
            }
        }
    }
    /// count an occurrence of a fault site; Some(arg) if a fault is planned there
    fn fault(&mut self, k: Fk) -> Option<u64> {
        let i = k as usize;
        let n = self.fault_cnt[i];
        self.fault_cnt[i] += 1;
        if !self.fault_any[i] || self.quiet {
            return None;
        }
        for f in &self.cfg.faults {
            if f.kind == k && f.n == n {
                self.fault_fired[i] += 1;
                self.hash = mix2(self.hash, 0xfa00 + i as u64);
                return Some(f.arg);
            }
        }
        None
    }

    // ---- futex
    fn futex_wait(&mut self, addr: usize, val: u32, deadline: Option<u64>) -> i32 {
        self.futex_waits += 1;
        self.sync();
        let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
        if cur != val {
            return -libc::EAGAIN;
        }
        if self.fault(Fk::Spurious).is_some() {
            self.do_yield();
            return 0;
        }
        let me = self.cur;
        self.seq += 1;
        self.thr[me].seq = self.seq;
        self.thr[me].timed_out = false;
        self.thr[me].st = St::Futex(addr, deadline);
        self.block();
        if self.thr[me].timed_out {
            -libc::ETIMEDOUT
        } else {
            0
        }
    }
    fn futex_wake(&mut self, addr: usize, n: usize) -> i32 {
        let mut woken = 0;
        while woken < n {
            let mut w: Vec<usize> =
                (0..MAXT).filter(|&t| matches!(self.thr[t].st, St::Futex(a, _) if a == addr)).collect();
            if w.is_empty() {
                break;
            }
            w.sort_by_key(|&t| self.thr[t].seq);
            let mut pick = w[0];
            if w.len() > 1 && n == 1 && !self.quiet {
                self.tick();
                let alt = match self.cfg.strategy.clone() {
                    Strategy::Replay => {
                        let t = self.traced();
                        self.plan();
                        t
                    }
                    Strategy::Seq | Strategy::Rr { .. } => None,
                    _ => Some(w[self.rng.below(w.len() as u64) as usize]),
                };
                if let Some(a) = alt {
                    if w.contains(&a) && a != pick {
                        pick = a;
                        self.devs.push((self.pt(), a as u32));
                    }
                }
            }
            self.thr[pick].st = St::Run;
            if let Some(a) = self.fault(Fk::Stall) {
                self.thr[pick].stalled_until = self.pt() + a;
            }
            woken += 1;
        }
        self.sync();
        woken as i32
    }
    fn do_yield(&mut self) {
        self.yields += 1;
        self.tick();
        self.expire();
        if let Strategy::Pct { .. } = self.cfg.strategy {
            let m = (0..MAXT).filter(|&t| self.runnable(t)).map(|t| self.thr[t].prio).min().unwrap_or(1);
            self.thr[self.cur].prio = m.saturating_sub(1);
        }
        if let Some(t) = self.choose(true) {
            self.switch(t);
        }
    }
    fn sleep(&mut self, until: u64) {
        let me = self.cur;
        self.thr[me].st = St::Sleep(until);
        self.block();
    }
    fn clock(&mut self) -> u64 {
        self.clocks += 1;
        if let Some(ms) = self.fault(Fk::ClockJump) {
            self.jump_ns += ms * 1_000_000;
        }
        self.now()
    }
    /// number of bytes delivered or -errno
    fn getrandom(&mut self, buf: *mut u8, len: usize, sys: bool) -> isize {
        self.getrandoms += 1;
        self.sync();
        if self.fault(Fk::Eintr).is_some() {
            return -(libc::EINTR as isize);
        }
        let mut n = len;
        if let Some(a) = self.fault(Fk::Short) {
            n = (1 + a as usize % len.max(1)).min(len);
        }
        let mut i = 0;
        while i < n {
            let w = self.entropy.next().to_le_bytes();
            for b in w {
                if i < n {
                    unsafe { *buf.add(i) = b }
                    i += 1;
                }
            }
        }
        if sys {
            if let Some(b) = self.cfg.flip {
                let (k, at) = (b / 8, self.sys_bytes);
                if k >= at && k < at + n as u64 {
                    unsafe { *buf.add((k - at) as usize) ^= 1 << (b % 8) }
                }
            }
            self.sys_bytes += n as u64;
        }
        n as isize
    }
    // ---- threads
    fn spawn_slot(&mut self) -> Option<usize> {
        let t = (1..MAXT).find(|&t| self.thr[t].st == St::Free)?;
        self.created += 1;
        self.thr[t].st = St::Run;
        self.thr[t].prio = self.rng.next() | 1 << 32;
        self.thr[t].go.store(0, Ordering::Relaxed);
        Some(t)
    }
    fn finish(&mut self) {
        let me = self.cur;
        self.tick();
        self.thr[me].st = St::Done;
        for t in 0..MAXT {
            if self.thr[t].st == St::Join(me) {
                self.thr[t].st = St::Run;
            }
        }
        loop {
            match self.choose(false) {
                Some(t) => {
                    self.handover(t);
                    return;
                }
                None => {
                    let mut best: Option<u64> = None;
                    for t in 0..MAXT {
                        match self.thr[t].st {
                            St::Futex(_, Some(d)) | St::Sleep(d) => best = Some(best.map_or(d, |b| b.min(d))),
                            _ => {}
                        }
                    }
                    match best {
                        Some(d) => {
                            let now = self.now();
                            self.jump_ns += d.saturating_sub(now);
                            for t in 0..MAXT {
                                match self.thr[t].st {
                                    St::Futex(_, Some(x)) | St::Sleep(x) if x <= d => {
                                        self.thr[t].st = St::Run;
                                        self.thr[t].timed_out = true;
                                    }
                                    _ => {}
                                }
                            }
                        }
                        None => abnormal("deadlock", "all threads blocked after a thread ended"),
                    }
                }
            }
        }
    }
    fn join(&mut self, target: usize) {
        self.sync();
        if self.thr[target].st != St::Done {
            let me = self.cur;
            self.thr[me].st = St::Join(target);
            self.block();
        }
    }
    fn by_pthread(&self, p: u64) -> Option<usize> {
        (1..MAXT).find(|&t| self.thr[t].pthread == p && self.thr[t].st != St::Free)
    }
}

fn abnormal(class: &str, msg: &str) -> ! {
    unsafe {
        ACTIVE = false;
        if let Some(f) = ABNORMAL {
            f(class, msg)
        }
        raw6(libc::SYS_exit_group, 99, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ------------------------------------------------------------------------------------------------ points
/// instrumented code: a basic block, load or store
#[inline(always)]
pub fn mem_point(pc: usize) {
    unsafe {
        if !ACTIVE || tid() >= MAXT as u32 {
            return;
        }
        PT += 1;
        if PT >= NEXT {
            mem_slow(pc);
        }
    }
}
#[cold]
#[inline(never)]
fn mem_slow(pc: usize) {
    let _g = Guard::enter();
    let s = sim();
    s.last_pc = pc.wrapping_sub(mem_slow as *const () as usize);
    if s.cover.len() < 4096 {
        s.cover.push(s.last_pc as u32);
    }
    s.preempt();
}
fn sync_at(site: usize) {
    let _g = Guard::enter();
    let s = sim();
    s.last_pc = site;
    s.sync();
}
pub fn log_point() {
    if in_sim() {
        sim().logs += 1;
        sync_at(0xffff_0001);
    }
}
/// a user callback is entered; true if it has to fail now
pub fn callback_point() -> bool {
    if !in_sim() {
        return false;
    }
    let r = {
        let _g = Guard::enter();
        let s = sim();
        s.callbacks += 1;
        s.fault(Fk::Panic).is_some()
    };
    sync_at(0xffff_0002);
    r
}
pub fn yield_point() {
    if in_sim() {
        let _g = Guard::enter();
        sim().do_yield();
    }
}
/// hook for the words drawn from ChaCha generators
pub fn draw(w: u64, bits: u32) -> u64 {
    if !in_sim() {
        return w;
    }
    let _g = Guard::enter();
    let s = sim();
    s.draws += 1;
    unsafe { PT += 1 }
    if unsafe { PT >= NEXT } {
        s.last_pc = 0xffff_0003;
        s.preempt();
    }
    match s.fault(Fk::Draw) {
        None => w,
        Some(0) => 0,
        Some(1) => {
            if bits == 32 {
                u32::MAX as u64
            } else {
                u64::MAX
            }
        }
        Some(a) => a,
    }
}

// sancov callbacks (only crates compiled with the instrumentation call them); the return address is the code location
extern "C" fn cov_at(pc: usize) {
    mem_point(pc);
}
macro_rules! ld {
    ($($n:ident),*) => { $(
        #[unsafe(naked)]
        #[no_mangle]
        pub extern "C" fn $n() {
            core::arch::naked_asm!("mov rdi, [rsp]", "jmp {}", sym cov_at)
        }
    )* };
}
ld!(
    __sanitizer_cov_trace_pc,
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mem_point(3);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        mem_point(3);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        mem_point(3);
        System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------------------------------------------ control
/// Start simulating: the calling thread becomes thread 0 and holds the baton.
pub fn start(cfg: Config, abn: fn(&str, &str) -> !) {
    unsafe {
        if !KEY_OK {
            let mut k: libc::pthread_key_t = 0;
            assert_eq!(libc::pthread_key_create(&mut k, Some(shim::thread_end)), 0);
            KEY = k;
            KEY_OK = true;
        }
        shim::resolve();
        ABNORMAL = Some(abn);
        let s = Box::new(Sim::new(cfg));
        SIM = Box::into_raw(s);
        PT = 0;
        sim().plan();
        TID.with(|t| t.set(0));
        ACTIVE = true;
    }
}
/// Stop simulating; only the calling thread continues (threads that still exist stay parked for ever).
pub fn stop() {
    unsafe {
        ACTIVE = false;
        TID.with(|t| t.set(NONE));
    }
}
/// Quiet mode: no preemption and no fault (used to evaluate oracles after the faulty phase).
pub fn quiet(q: bool) {
    if in_sim() {
        let _g = Guard::enter();
        let s = sim();
        s.quiet = q;
        s.plan();
    }
}
pub fn note(x: u64) {
    if unsafe { !SIM.is_null() } {
        let s = sim();
        s.hash = mix2(s.hash, x);
    }
}
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub points: u64,
    pub switches: u64,
    pub preempts: u64,
    pub hash: u64,
    pub sig: u64,
    pub created: u64,
    pub futex_waits: u64,
    pub yields: u64,
    pub getrandoms: u64,
    pub clocks: u64,
    pub callbacks: u64,
    pub logs: u64,
    pub draws: u64,
    pub sim_ns: u64,
    pub fired: [u64; 7],
    pub sites: [u64; 7],
    pub devs: Vec<(u64, u32)>,
}
pub fn stats(with_devs: bool) -> Stats {
    unsafe {
        if SIM.is_null() {
            return Stats::default();
        }
    }
    let s = sim();
    Stats {
        points: unsafe { PT },
        switches: s.switches,
        preempts: s.preempts,
        hash: s.hash,
        sig: s.sig,
        created: s.created,
        futex_waits: s.futex_waits,
        yields: s.yields,
        getrandoms: s.getrandoms,
        clocks: s.clocks,
        callbacks: s.callbacks,
        logs: s.logs,
        draws: s.draws,
        sim_ns: s.now() - s.cfg.clock_base_ns,
        fired: s.fault_fired,
        sites: s.fault_cnt,
        devs: if with_devs { s.devs.clone() } else { vec![] },
    }
}
/// bytes delivered through getrandom system calls so far
pub fn sys_bytes() -> u64 {
    unsafe {
        if SIM.is_null() {
            return 0;
        }
    }
    sim().sys_bytes
}
/// occurrences of a fault site so far
pub fn site_count(k: Fk) -> u64 {
    unsafe {
        if SIM.is_null() {
            return 0;
        }
    }
    sim().fault_cnt[k as usize]
}
/// faults of a kind injected so far
pub fn fired(k: Fk) -> u64 {
    unsafe {
        if SIM.is_null() {
            return 0;
        }
    }
    sim().fault_fired[k as usize]
}
/// code locations at which planned scheduling decisions took place
pub fn cover() -> Vec<u32> {
    unsafe {
        if SIM.is_null() {
            return vec![];
        }
    }
    sim().cover.clone()
}
pub fn points() -> u64 {
    unsafe { PT }
}
pub fn my_tid() -> u32 {
    tid() & !GUARD
}
/// remember the message of the latest panic (called by the quiet panic hook)
#[inline(never)]
pub fn set_panic_msg(m: String) {
    let _g = Guard::enter();
    unsafe { *PANIC_MSG.0.get() = Some(m) }
}
#[inline(never)]
pub fn take_panic_msg() -> Option<String> {
    let _g = Guard::enter();
    unsafe { (*PANIC_MSG.0.get()).take() }
}
