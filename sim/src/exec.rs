//! Execution of one run in a freshly forked process.
use crate::spec::Spec;
use simos::{Config, Stats};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Fail {
    pub class: String,
    pub msg: String,
}
/// (property, id, text) of the open findings listed in known_findings.txt
pub fn open_findings() -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", crate::orch::verif())).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("open: property="))
        .filter_map(|l| l.split_once(" id="))
        .filter_map(|(p, r)| r.split_once(' ').map(|(i, t)| (p.to_string(), i.to_string(), t.to_string())))
        .collect()
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! check {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { return $crate::exec::fail($class, format!($($a)*)); } };
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub class: Option<String>,
    pub msg: String,
    pub stats: Stats,
    pub counts: BTreeMap<String, f64>,
    pub cover: Vec<u32>,
}

const SHM: usize = 48 << 20;

pub struct Shm(*mut u8, usize);
impl Shm {
    pub fn new(n: usize) -> Shm {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shm(p as *mut u8, n)
    }
    pub fn clear(&self) {
        unsafe { (self.0 as *mut u64).write_volatile(0) }
    }
    pub fn put(&self, s: &[u8]) {
        unsafe {
            let n = s.len().min(self.1 - 16);
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.0.add(8), n);
            (self.0 as *mut u64).write_volatile(n as u64 + 1);
        }
    }
    pub fn get(&self) -> Option<Vec<u8>> {
        unsafe {
            let n = (self.0 as *mut u64).read_volatile();
            if n == 0 {
                return None;
            }
            Some(std::slice::from_raw_parts(self.0.add(8), n as usize - 1).to_vec())
        }
    }
}
impl Drop for Shm {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.0 as *mut libc::c_void, self.1);
        }
    }
}

pub struct Env<'a> {
    pub spec: &'a Spec,
    counts: std::cell::RefCell<BTreeMap<String, f64>>,
    ran: std::cell::Cell<bool>,
    /// positions of planned callback failures are in 1/100000 of this number of callbacks (0: absolute)
    pub scale: std::cell::Cell<u64>,
    sub: Shm,
}

static mut CUR: Option<(&'static Shm, bool, *const std::cell::RefCell<BTreeMap<String, f64>>)> = None;

fn exit_now() -> ! {
    unsafe {
        simos::raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    loop {}
}

fn abnormal(class: &str, msg: &str) -> ! {
    #[allow(static_mut_refs)]
    unsafe {
        if let Some((shm, rec, counts)) = &CUR {
            let c = match (**counts).try_borrow() {
                Ok(c) => c.clone(),
                Err(_) => BTreeMap::new(),
            };
            let o = Outcome {
                class: Some(class.into()),
                msg: msg.into(),
                stats: simos::stats(*rec),
                counts: c,
                cover: vec![],
            };
            shm.put(encode(&o).as_bytes());
        }
    }
    exit_now()
}
static mut SUB: *const Shm = std::ptr::null();
fn sub_abnormal(class: &str, msg: &str) -> ! {
    unsafe { (*SUB).put(format!("E{}: {}", class, msg).as_bytes()) }
    exit_now()
}

fn encode(o: &Outcome) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    if let Some(c) = &o.class {
        let _ = writeln!(s, "class\t{}", c);
    }
    let _ = writeln!(s, "msg\t{}", o.msg.replace('\n', " "));
    let t = &o.stats;
    let _ = writeln!(
        s,
        "st\t{} {} {} {} {} {} {} {} {} {} {} {} {} {}",
        t.points,
        t.switches,
        t.preempts,
        t.hash,
        t.sig,
        t.created,
        t.futex_waits,
        t.yields,
        t.getrandoms,
        t.clocks,
        t.callbacks,
        t.logs,
        t.draws,
        t.sim_ns
    );
    let _ = writeln!(s, "fired\t{}", t.fired.map(|x| x.to_string()).join(" "));
    let _ = writeln!(s, "sites\t{}", t.sites.map(|x| x.to_string()).join(" "));
    for (k, v) in &o.counts {
        let _ = writeln!(s, "c\t{}\t{:e}", k, v);
    }
    if !t.devs.is_empty() {
        let _ = write!(s, "devs\t");
        for d in &t.devs {
            let _ = write!(s, "{},{};", d.0, d.1);
        }
        s.push('\n');
    }
    if !o.cover.is_empty() {
        let _ = writeln!(s, "cover\t{}", o.cover.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    s
}
fn nums(s: &str) -> Vec<u64> {
    s.split(' ').filter_map(|x| x.parse().ok()).collect()
}
fn decode(b: &[u8]) -> Outcome {
    let t = String::from_utf8_lossy(b);
    let mut o = Outcome::default();
    for l in t.lines() {
        let (k, v) = l.split_once('\t').unwrap_or((l, ""));
        match k {
            "class" => o.class = Some(v.into()),
            "msg" => o.msg = v.into(),
            "st" => {
                let n = nums(v);
                let s = &mut o.stats;
                [
                    &mut s.points,
                    &mut s.switches,
                    &mut s.preempts,
                    &mut s.hash,
                    &mut s.sig,
                    &mut s.created,
                    &mut s.futex_waits,
                    &mut s.yields,
                    &mut s.getrandoms,
                    &mut s.clocks,
                    &mut s.callbacks,
                    &mut s.logs,
                    &mut s.draws,
                    &mut s.sim_ns,
                ]
                .into_iter()
                .zip(n)
                .for_each(|(a, b)| *a = b);
            }
            "fired" => nums(v).into_iter().enumerate().for_each(|(i, x)| o.stats.fired[i] = x),
            "sites" => nums(v).into_iter().enumerate().for_each(|(i, x)| o.stats.sites[i] = x),
            "c" => {
                if let Some((a, b)) = v.split_once('\t') {
                    o.counts.insert(a.into(), b.parse().unwrap_or(0.0));
                }
            }
            "devs" => {
                o.stats.devs = v
                    .split(';')
                    .filter_map(|x| x.split_once(','))
                    .filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))
                    .collect()
            }
            "cover" => o.cover = nums(v).into_iter().map(|x| x as u32).collect(),
            _ => {}
        }
    }
    o
}

fn quiet_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        simos::set_panic_msg(format!("{}{}", m, l));
    }));
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        simos::log_point();
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

pub fn global_init() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Off);
    rand_chacha::sim_hook::install(simos::draw);
    quiet_hook();
}

// one thread runs at a time, and clients only read the specification
unsafe impl Sync for Env<'_> {}
impl<'a> Env<'a> {
    pub fn p(&self, k: &str) -> i64 {
        self.spec.get(k)
    }
    pub fn u(&self, k: &str) -> usize {
        self.spec.get(k) as usize
    }
    pub fn opt(&self, k: &str, d: i64) -> i64 {
        self.spec.opt(k, d)
    }
    pub fn count(&self, k: &str, v: f64) {
        *self.counts.borrow_mut().entry(k.into()).or_insert(0.0) += v;
    }
    /// A violation that is a listed finding is counted, any other fails the run.
    pub fn known(&self, id: &str, msg: String) -> Res {
        if open_findings().iter().any(|f| f.0 == self.spec.prop && f.1 == id) {
            self.count(&format!("known:{}", id), 1.0);
            Ok(())
        } else {
            fail(id, msg)
        }
    }
    pub fn max(&self, k: &str, v: f64) {
        let mut c = self.counts.borrow_mut();
        let e = c.entry(format!("max:{}", k)).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    fn body<R: Send>(workers: usize, logs: bool, f: impl FnOnce() -> R + Send) -> std::thread::Result<R> {
        log::set_max_level(if logs { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        std::thread::scope(|s| {
            s.spawn(move || {
                if workers > 0 {
                    let _ = rayon::ThreadPoolBuilder::new().num_threads(workers).build_global();
                }
                catch_unwind(AssertUnwindSafe(f))
            })
            .join()
            .unwrap_or_else(|e| Err(e))
        })
    }
    /// The simulated execution of this run (at most one per run): schedule and faults of the specification.
    pub fn sim<R: Send>(&self, workers: usize, f: impl FnOnce() -> R + Send) -> std::thread::Result<R> {
        assert!(!self.ran.replace(true), "harness: one simulation per run");
        let mut cfg = self.spec.config();
        if self.scale.get() > 0 {
            for f in cfg.faults.iter_mut().filter(|f| f.kind == simos::Fk::Panic) {
                f.n = (f.n as u128 * self.scale.get() as u128 / 100_000) as u64;
            }
        }
        let nested = self.spec.opt("workers", 0) > 0 && self.spec.opt("nested", 0) != 0;
        crate::props::NESTED.store(nested, std::sync::atomic::Ordering::Relaxed);
        if nested {
            self.count("runs_with_callers_in_the_pool", 1.0);
        }
        simos::start(cfg, abnormal);
        let r = Self::body(workers, self.opt("logs", 0) != 0, f);
        simos::stop();
        log::set_max_level(log::LevelFilter::Off);
        r
    }
    /// As `sim`, any panic is a failure of the run.
    pub fn sim_ok<R: Send>(&self, workers: usize, f: impl FnOnce() -> R + Send) -> Result<R, Fail> {
        match self.sim(workers, f) {
            Ok(r) => Ok(r),
            Err(_) => fail("panic", simos::take_panic_msg().unwrap_or_default()),
        }
    }
    /// Execute `f` alone in another fresh process: no preemption, no fault, given entropy and number of workers.
    pub fn alone(&self, cfg: Config, workers: usize, f: impl FnOnce() -> Vec<u64> + Send) -> Result<Vec<u64>, Fail> {
        assert!(!self.ran.get(), "harness: baseline after the simulation");
        self.sub.clear();
        unsafe {
            SUB = &self.sub;
            let pid = libc::fork();
            if pid == 0 {
                simos::start(cfg, sub_abnormal);
                let r = Self::body(workers, false, f);
                simos::stop();
                match r {
                    Ok(v) => {
                        let mut b = vec![b'V'];
                        for x in v {
                            b.extend_from_slice(&x.to_le_bytes());
                        }
                        self.sub.put(&b)
                    }
                    Err(_) => {
                        self.sub.put(format!("Epanic: {}", simos::take_panic_msg().unwrap_or_default()).as_bytes())
                    }
                }
                exit_now();
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            match self.sub.get() {
                Some(b) if b[0] == b'V' => {
                    Ok(b[1..].chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
                }
                Some(b) => {
                    let t = String::from_utf8_lossy(&b[1..]).to_string();
                    let (c, m) = t.split_once(": ").unwrap_or((&t, ""));
                    fail(&format!("alone-{}", c), m.to_string())
                }
                None => fail("alone-crash", format!("wait status {:x}", st)),
            }
        }
    }
}

/// Run a specification in a forked child.
pub fn run(spec: &Spec, shm: &'static Shm, rec: bool) -> Outcome {
    let prop = crate::props::find(&spec.prop).expect("unknown property");
    // look-ups are scheduling points: the tree has the same shape wherever the specification comes from
    let spec = &Spec { p: spec.p.iter().map(|(k, v)| (k.clone(), *v)).collect(), ..spec.clone() };
    shm.clear();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "harness: fork failed");
        if pid == 0 {
            // 100 s of CPU time without an end, or 200 s in which the process does not get on, is a hang
            let t = libc::itimerval {
                it_interval: std::mem::zeroed(),
                it_value: libc::timeval { tv_sec: spec.opt("alarm", 100), tv_usec: 0 },
            };
            libc::syscall(libc::SYS_setitimer, 2, &t, 0usize);
            libc::alarm(2 * spec.opt("alarm", 100) as u32);
            let env = Env {
                spec,
                counts: std::cell::RefCell::new(BTreeMap::new()),
                ran: std::cell::Cell::new(false),
                scale: std::cell::Cell::new(0),
                sub: Shm::new(SHM),
            };
            CUR = Some((shm, rec, &env.counts));
            let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(&env)));
            simos::stop();
            let (class, msg) = match r {
                Ok(Ok(())) => (None, String::new()),
                Ok(Err(f)) => (Some(f.class), f.msg),
                Err(_) => (Some("panic".to_string()), simos::take_panic_msg().unwrap_or_default()),
            };
            let stats = simos::stats(rec);
            let mut cover = simos::cover();
            cover.sort_unstable();
            cover.dedup();
            let o = Outcome { class, msg, stats, counts: env.counts.borrow().clone(), cover };
            shm.put(encode(&o).as_bytes());
            exit_now();
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match shm.get() {
            Some(b) => decode(&b),
            None => {
                let sig = st & 0x7f;
                Outcome {
                    class: Some(if sig == libc::SIGALRM || sig == libc::SIGPROF { "hang".into() } else { format!("crash-signal-{}", sig) }),
                    msg: format!("child ended with wait status {:x}", st),
                    ..Default::default()
                }
            }
        }
    }
}
