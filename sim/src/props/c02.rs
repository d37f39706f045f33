//! C02: sampled trajectories follow the law of the network.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::law::*;
use model::net::Net;
use model::stat::*;
use reCTBN::process::NetworkProcess;
use reCTBN::sampling::{ForwardSampler, Sample};

pub const PROP: Prop = Prop {
    id: "C02",
    gen,
    run,
    quick: (2500, 60.0),
    thorough: (200_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("starts", Shrink::Int(0)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = network x seeds or entropy x schedule of concurrent samplers, followed for tens of thousands of transitions and tested against the exact conditional intensities; non-trivial: at least 1000 transitions; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C02");
    let shape = match r.below(8) {
        0 => NetGen { n: (5, 9), card: (2, 3), max_joint: usize::MAX, max_parents: 2, styles: ST },
        1..=3 => NetGen { n: (1, 3), card: (2, 3), max_joint: 12, max_parents: 2, styles: ST },
        _ => NetGen { n: (1, 5), card: (2, 4), max_joint: 300, max_parents: 3, styles: ST },
    };
    gen_net(&mut s, r, shape);
    widen(&mut s, r, 5000);
    let crowded = crowd(&mut s, r, 40);
    let clients = *r.pick(&[1, 1, 1, 1, 2]);
    let steps = (if t { 3 } else { 1 }) * r.range(8_000, 40_000) / clients;
    let steps = if crowded { steps / 5 } else { steps };
    s.set("clients", clients);
    s.set("steps", steps);
    s.set("starts", if crowded { 0 } else { *r.pick(&[0, 200, 600]) });
    s.set("unseeded", (r.below(3) == 0) as i64);
    s.set("seed", (r.next() >> 30) as i64);
    rescale(&mut s, r);
    gen_env(&mut s, r);
    s.set("logs", 0);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, (clients * steps * 900) as u64);
    s
}
pub const ST: &[i64] = &[0, 0, 1, 1, 2, 3, 4, 5, 6, 8];

/// a sample as (time, state); legality is C01's business but the law is meaningless without it
pub fn feed(law: &mut Law, t: &mut f64, x: &Sample, k: usize) -> Res {
    let now = un(&x.state);
    let dt = x.t - *t;
    let i = match (0..now.len()).find(|&i| now[i] != law.state()[i]) {
        Some(i) => i,
        None => return fail("no-move", format!("sample {}: the state does not change", k)),
    };
    check!(dt >= 0.0 && dt.is_finite(), "time", "sample {}: waiting time {}", k, dt);
    check!(now[i] < law.net.card[i], "domain", "sample {}: {:?}", k, now);
    law.stay(dt);
    law.jump(i, now[i]);
    check!(law.state() == &now[..], "moves", "sample {}: two variables change at once", k);
    *t = x.t;
    Ok(())
}
/// uniform and independent initial states
pub fn uniform_states(net: &Net, states: &[Vec<usize>]) -> Res {
    if states.len() < 100 {
        return Ok(());
    }
    let m = states.len() as f64;
    let mut worst: (f64, String) = (0.0, String::new());
    let mut put = |d: f64, s: &dyn Fn() -> String| {
        if d > worst.0 {
            worst = (d, s());
        }
    };
    for i in 0..net.n() {
        for x in 0..net.card[i] {
            let k = states.iter().filter(|s| s[i] == x).count() as f64;
            put(binom_dev(k, m, 1.0 / net.card[i] as f64), &|| format!("node {} starts in state {} {} times of {}", i, x, k, m));
            for j in 0..if net.n() > 20 { 0 } else { net.n() } {
                for y in 0..net.card[j] {
                    let p = 1.0 / (net.card[i] * net.card[j]) as f64;
                    if j > i {
                        let k = states.iter().filter(|s| s[i] == x && s[j] == y).count() as f64;
                        put(binom_dev(k, m, p), &|| {
                            format!("nodes {},{} start in states {},{} {} times of {}", i, j, x, y, k, m)
                        });
                    }
                    let k = states.windows(2).filter(|w| w[0][i] == x && w[1][j] == y).count() as f64;
                    put(0.5 * binom_dev(k, m - 1.0, p), &|| {
                        format!("node {} starts in state {} and node {} of the next start in {} {} times of {}", i, x, j, y, k, m)
                    });
                }
            }
        }
    }
    if net.joint() <= 64 {
        for k in 0..net.joint() {
            let c = states.iter().filter(|s| net.idx(s) == k).count() as f64;
            put(binom_dev(c, m, 1.0 / net.joint() as f64), &|| format!("{:?} is the initial state {} times of {}", net.state(k), c, m));
        }
    }
    if worst.0 > TH {
        return fail("initial", format!("initial states are not uniform: {} (exponent {:.1})", worst.1, worst.0));
    }
    Ok(())
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let (steps, starts) = (e.u("steps"), e.u("starts"));
    let seed = |k: u64| if e.p("unseeded") != 0 { None } else { Some((e.p("seed") as u64).wrapping_add(k)) };
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        clients(e.u("clients"), |c| {
            let mut law = Law::new(&net);
            let base = (c as u64) << 32;
            // many young samplers, a few transitions each
            let mut begun = vec![];
            for k in 0..starts {
                let mut s = ForwardSampler::new(&g, seed(base + 1 + k as u64), None);
                let x = s.next().unwrap();
                let first = un(&x.state);
                law.begin(&first);
                begun.push(first);
                let mut t = 0.0;
                for j in 0..4 {
                    feed(&mut law, &mut t, &s.next().unwrap(), j)?;
                }
            }
            // one old sampler
            let mut s = ForwardSampler::new(&g, seed(base), None);
            let x = s.next().unwrap();
            law.begin(&un(&x.state));
            let mut t = 0.0;
            for k in 0..steps {
                feed(&mut law, &mut t, &s.next().unwrap(), k)?;
            }
            let _ = g.get_number_of_nodes();
            Ok((law, begun))
        })
    })?;
    let mut begun: Vec<Vec<usize>> = vec![];
    for x in all_ok(res)? {
        let (mut law, b) = x?;
        simos::note(law.time.to_bits());
        begun.extend(b);
        let v = law.verdict();
        e.count("transitions", law.events as f64);
        e.count("simulated_process_time", law.time);
        e.max("rate deviation exponent (alarm at 25)", law.max_dev);
        e.max("sqrt(n) KS distance (alarm at 3.6)", law.max_ks);
        lawful(v)?;
    }
    uniform_states(&net, &begun)
}
