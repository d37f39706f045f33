//! The properties: workload generator, simulated workload, oracle.
use std::sync::atomic::{AtomicBool, Ordering};
use crate::exec::{Env, Res};
use crate::spec::Spec;
use simos::{Fault, Fk, Rng};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c30;
pub mod c31;
pub mod c32;
pub mod c33;
pub mod c34;
pub mod c35;

pub enum Shrink {
    Int(i64),
    Bits,
    Digits,
}
pub enum Distinct {
    Schedules,
    Cases,
}
pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, bool) -> Spec,
    pub run: fn(&Env) -> Res,
    /// (maximum number of runs, wall clock cap in seconds)
    pub quick: (u64, f64),
    pub thorough: (u64, f64),
    pub shrink: &'static [(&'static str, Shrink)],
    pub distinct: Distinct,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

pub static ALL: &[Prop] = &[c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP, c14::PROP, c15::PROP, c16::PROP, c17::PROP, c18::PROP, c30::PROP, c31::PROP, c32::PROP, c33::PROP, c34::PROP, c35::PROP];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}

pub const REAL_ALL: &str = "reCTBN (instrumented), rayon, rayon-core, crossbeam, std threads/locks/thread-locals, rand, rand_chacha, ndarray, statrs";
pub const STUB_OS: &str = "kernel scheduler, futex, clock, sleep and entropy source are simulated";

/// environment parameters common to all runs
pub fn gen_env(s: &mut Spec, r: &mut Rng) {
    s.set("entropy", (r.next() >> 24) as i64);
    s.set("clock", r.range(0, 400_000_000));
    s.set("logs", (r.below(3) == 0) as i64);
    s.set("ncpu", r.range(1, 8));
    // the callers themselves are tasks of the thread pool
    s.set("nested", (r.below(6) == 0) as i64);
}

/// faults of the environment that must never change a result
pub fn gen_faults(s: &mut Spec, r: &mut Rng) {
    if r.below(3) == 0 {
        return;
    }
    let mut add = |r: &mut Rng, kind: Fk, span: u64, args: &[u64]| {
        if r.below(3) == 0 {
            for _ in 0..r.range(1, 4) {
                s.faults.push(Fault { kind, n: r.below(span), arg: *r.pick(args) });
            }
        }
    };
    add(r, Fk::Eintr, 12, &[0]);
    add(r, Fk::Short, 12, &[0, 1, 3, 7, 11, 30]);
    add(r, Fk::Spurious, 25, &[0]);
    add(r, Fk::ClockJump, 8, &[1, 1000, 10_000_000]);
    add(r, Fk::Stall, 25, &[50, 2000, 60_000]);
}
/// whether `clients` and `in_pool` use the thread pool of the run
pub static NESTED: AtomicBool = AtomicBool::new(false);
/// One caller, in nested runs as a task of the thread pool.
pub fn in_pool<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    if NESTED.load(Ordering::Relaxed) {
        rayon::scope(|_| f())
    } else {
        f()
    }
}
/// Threads of the harness in the simulated world; a panic of one is its result.
pub fn clients<R: Send>(n: usize, f: impl Fn(usize) -> R + Sync) -> Vec<std::thread::Result<R>> {
    if NESTED.load(Ordering::Relaxed) {
        let mut out: Vec<_> = (0..n).map(|_| None).collect();
        rayon::scope(|s| {
            for (i, o) in out.iter_mut().enumerate() {
                let f = &f;
                s.spawn(move |_| *o = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)))));
            }
        });
        return out.into_iter().map(|x| x.unwrap()).collect();
    }
    if n == 1 {
        return vec![std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(0)))];
    }
    std::thread::scope(|s| {
        let h: Vec<_> = (0..n)
            .map(|i| {
                let f = &f;
                s.spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i))))
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|e| Err(e))).collect()
    })
}
pub fn all_ok<R>(v: Vec<std::thread::Result<R>>) -> Result<Vec<R>, crate::exec::Fail> {
    v.into_iter()
        .map(|x| x.or_else(|_| crate::exec::fail("panic", simos::take_panic_msg().unwrap_or_default())))
        .collect()
}
pub fn lawful(x: Result<(), (String, String)>) -> Res {
    x.or_else(|(c, m)| crate::exec::fail(&c, m))
}
/// the message of a caught panic
pub fn payload(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}
pub const PLANNED: &str = "planned failure in ";
