//! C04: seeded results are reproducible in every environment.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::Mix;

pub const PROP: Prop = Prop {
    id: "C04",
    gen,
    run,
    quick: (12000, 50.0),
    thorough: (600_000, 600.0),
    shrink: &[
        ("noise", Shrink::Int(0)),
        ("clients", Shrink::Int(1)),
        ("nops", Shrink::Int(1)),
        ("twice", Shrink::Int(0)),
        ("twin", Shrink::Int(0)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Schedules,
    rule: "one case = list of seeded operations x history of the process x noise of other threads x workers x entropy, clock and hash keys x schedule, compared bit for bit with each operation executed alone in a fresh process with other entropy, clock and worker count; distinct by the sequence of (code location, thread, thread) of all context switches",
    real: REAL_ALL,
    stub: STUB_OS,
};

pub fn world_net() -> NetGen {
    NetGen { n: (2, 5), card: (2, 3), max_joint: 48, max_parents: 2, styles: &[0, 1, 2, 5, 8] }
}
/// the k-th operation of client c
pub fn pick_op(s: &Spec, c: u64, k: u64) -> (i64, u64) {
    let mut r = Mix(simos::mix2(s.get("opseed") as u64, c << 20 | k));
    let kind = if s.opt("only", -1) >= 0 { s.get("only") } else { r.below(N_OPS as u64) as i64 };
    // seeds are small or huge; equal seeds are common
    let a = if r.below(2) == 0 { r.below(6) } else { r.next() };
    // threads may share their arguments
    let pool = s.opt("pool", 0) as u64;
    let a = if pool > 0 { Mix(simos::mix2(s.get("opseed") as u64, a % pool)).next() } else { a };
    (kind, a)
}

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C04");
    gen_net(&mut s, r, world_net());
    s.set("opseed", (r.next() >> 30) as i64);
    s.set("nops", r.range(1, if t { 4 } else { 2 }));
    s.set("clients", *r.pick(&[1, 1, 1, 2]));
    s.set("noise", *r.pick(&[0, 0, 1, 2]));
    s.set("twice", r.range(0, 1));
    s.set("twin", (r.below(3) == 0) as i64);
    s.set("workers", r.range(1, 6));
    s.set("wseed", r.range(0, 1 << 20));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, 1_500_000);
    s
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let wseed = e.p("wseed") as u64;
    let (nc, no) = (e.u("clients"), e.u("nops"));
    let mut base = vec![];
    for c in 0..nc {
        for k in 0..no {
            let (kind, a) = pick_op(e.spec, c as u64, k as u64);
            let mut cfg = simos::Config::plain(simos::mix2(e.p("entropy") as u64, 0xa104 + (c * 10 + k) as u64));
            cfg.clock_base_ns = 1_000_000_000_000_000_000 + a % 1000;
            cfg.ncpu = 1 + a % 7;
            let net = &net;
            base.push(e.alone(cfg, 1 + (a % 3) as usize, move || World::new(net, wseed).op(kind, a))?);
            e.count(&format!("op {}", OP_NAMES[kind as usize]), 1.0);
        }
    }
    let noise = e.u("noise");
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        // another world in the same place
        if e.p("twin") != 0 {
            let w = World::new(&net_styled(e.spec, 1, e.p("rates") as u64 ^ 0x7717), wseed ^ 0x7717);
            for c in 0..nc {
                for k in 0..no {
                    let (kind, a) = pick_op(e.spec, c as u64, k as u64);
                    w.op(kind, a);
                }
            }
        }
        let w = World::new(&net, wseed);
        let other = if noise > 0 {
            Some(World::with_data(&net_styled(e.spec, 1, e.p("rates") as u64 ^ 0x44), wseed ^ 0x55, 3, 15))
        } else {
            None
        };
        clients(nc + noise, |c| {
            let mut out = vec![];
            if c >= nc {
                // other threads doing unrelated work, seeded or not
                for k in 0..2 {
                    let (kind, a) = pick_op(e.spec, c as u64, k);
                    other.as_ref().unwrap().op(kind, a);
                    let _ = reCTBN::tools::trajectory_generator(&w.g, 1, 0.3, None);
                }
            } else {
                for k in 0..no {
                    let (kind, a) = pick_op(e.spec, c as u64, k as u64);
                    for _ in 0..1 + e.p("twice") {
                        out.push((k, w.op(kind, a)));
                    }
                }
            }
            out
        })
    })?;
    for (c, out) in all_ok(res)?.into_iter().enumerate() {
        for (j, (k, v)) in out.into_iter().enumerate() {
            let (kind, a) = pick_op(e.spec, c as u64, k as u64);
            let b = &base[c * no + k];
            for x in &v {
                simos::note(*x);
            }
            if v != *b {
                let i = (0..v.len().max(b.len())).find(|&i| v.get(i) != b.get(i)).unwrap();
                return fail(
                    "differs",
                    format!(
                        "{} with seed/argument {} (call {}) differs from a run alone in a fresh process: word {} is {:?} instead of {:?}",
                        OP_NAMES[kind as usize],
                        a,
                        j,
                        i,
                        v.get(i).map(|x| f64::from_bits(*x)),
                        b.get(i).map(|x| f64::from_bits(*x))
                    ),
                );
            }
            e.count("results_compared", 1.0);
            e.count("words_compared", v.len() as f64);
        }
    }
    Ok(())
}
