//! C01: sampled trajectories are legal histories of the process.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::{Mix, Net};
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::NetworkProcess;
use reCTBN::sampling::{ForwardSampler, Sampler};
use simos::{Fault, Fk};

pub const PROP: Prop = Prop {
    id: "C01",
    gen,
    run,
    quick: (12000, 60.0),
    thorough: (2_000_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("steps", Shrink::Int(2)),
        ("resets", Shrink::Int(0)),
        ("warm", Shrink::Int(0)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = process (network, single process or amalgamation) x initial state x stream of random words with extreme draws x restart points x schedule of concurrent samplers; non-trivial: at least one transition is checked; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C01");
    let kind = *r.pick(&[0, 0, 0, 0, 1, 2]);
    let shape = match (kind, r.below(8)) {
        (0, 0) => NetGen { n: (6, 12), card: (2, 4), max_joint: usize::MAX, max_parents: 3, styles: ST },
        (0, _) => NetGen { n: (1, 6), card: (2, 6), max_joint: 20000, max_parents: 4, styles: ST },
        (1, _) => NetGen { n: (1, 1), card: (2, 7), max_joint: 7, max_parents: 0, styles: ST },
        _ => NetGen { n: (1, 4), card: (2, 4), max_joint: 48, max_parents: 3, styles: &[0, 1, 2, 5, 6, 8] },
    };
    gen_net(&mut s, r, shape);
    if kind == 0 {
        widen(&mut s, r, usize::MAX);
    } else if kind == 1 && r.below(8) == 0 {
        s.set("bigc", *r.pick(&[9, 17, 33, 70]));
        s.set("style", 1);
    }
    let crowded = kind == 0 && crowd(&mut s, r, 30);
    s.set("kind", kind);
    let long = r.below(if t { 25 } else { 60 }) == 0;
    let clients = if long { 1 } else { *r.pick(&[1, 1, 1, 2, 3]) };
    let steps = if long { r.range(20_000, if t { 400_000 } else { 70_000 }) } else { r.range(20, 900) };
    s.set("clients", clients);
    s.set("steps", steps);
    s.set("resets", if long { 0 } else { *r.pick(&[0, 0, 1, 3, 10, 40]) });
    if crowded {
        s.set("steps", steps.min(2000));
    }
    s.set("seedkind", r.range(0, 3));
    s.set("initkind", r.range(0, 2));
    s.set("seed", (r.next() >> 30) as i64);
    rescale(&mut s, r);
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    s.sched = gen_sched(r, (clients * steps * 900) as u64);
    if i % 2 == 1 {
        gen_faults(&mut s, r);
        for _ in 0..r.range(1, 30) {
            let n = r.below((clients * steps * 2) as u64 + 2);
            let arg = match r.below(8) {
                0..=2 => 0,
                3..=5 => 1,
                6 => 1 << r.range(1, 63),
                _ => u64::MAX - r.below(1 << 13),
            };
            // sometimes a whole streak
            let k = if r.below(10) == 0 { r.range(2, 12) as u64 } else { 1 };
            for j in 0..k {
                s.faults.push(Fault { kind: Fk::Draw, n: n + j, arg });
            }
        }
    }
    s
}
const ST: &[i64] = &[0, 1, 2, 2, 3, 4, 5, 5, 6, 7];

/// follow one sampler and check every sample
fn follow<T: NetworkProcess>(
    g: &T,
    net: &Net,
    seed: Option<u64>,
    init: Option<Vec<usize>>,
    steps: usize,
    resets: usize,
    r: &mut Mix,
) -> Result<(u64, u64), crate::exec::Fail> {
    let mut s = ForwardSampler::new(g, seed, init.as_ref().map(|x| st(x)));
    let mut cut: Vec<usize> = (0..resets).map(|_| r.below(steps as u64 + 1) as usize).collect();
    cut.sort();
    let mut last: Option<(f64, Vec<usize>)> = None;
    let mut jumps = 0;
    let mut inf = 0;
    let mut ci = 0;
    for k in 0..steps {
        while ci < cut.len() && cut[ci] == k {
            s.reset();
            last = None;
            ci += 1;
        }
        let x = match s.next() {
            Some(x) => x,
            None => return fail("ended", format!("the sampler ended after {} samples", k)),
        };
        let now = un(&x.state);
        check!(
            now.len() == net.n() && now.iter().zip(&net.card).all(|(a, c)| a < c),
            "domain",
            "sample {}: {:?} is no state of the process",
            k,
            now
        );
        check!(!x.t.is_nan(), "time", "sample {}: time is NaN", k);
        match &last {
            None => {
                check!(x.t == 0.0, "start", "sample {}: a trajectory starts at time {:e}", k, x.t);
                if let Some(i) = &init {
                    check!(*i == now, "start", "sample {}: starts in {:?} instead of {:?}", k, now, i);
                }
            }
            Some((t, before)) => {
                check!(x.t >= *t, "time", "sample {}: time goes from {:e} back to {:e}", k, t, x.t);
                let d: Vec<usize> = (0..net.n()).filter(|&i| now[i] != before[i]).collect();
                check!(d.len() == 1, "moves", "sample {}: {:?} -> {:?} changes {} variables", k, before, now, d.len());
                let q = net.rate(d[0], before, now[d[0]]);
                check!(
                    q > 0.0,
                    "impossible",
                    "sample {}: {:?} -> {:?} has intensity {} given the parents' values",
                    k,
                    before,
                    now,
                    q
                );
                jumps += 1;
                if x.t.is_infinite() {
                    inf += 1;
                }
            }
        }
        last = Some((x.t, now));
    }
    Ok((jumps, inf))
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let (steps, resets) = (e.u("steps"), e.u("resets"));
    let kind = e.p("kind");
    // the process as seen by the sampler
    let flat = Net {
        card: vec![net.joint().min(1000)],
        parents: vec![vec![]],
        cim: if kind == 2 {
            vec![vec![(0..net.joint())
                .map(|k| {
                    let mut row = vec![0.0; net.joint()];
                    for (t, q, ..) in net.out(k) {
                        row[t] += q;
                    }
                    row
                })
                .collect()]]
        } else {
            vec![]
        },
    };
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        let mut single = CtmpProcess::new();
        if kind == 1 {
            let mut p = param("x", net.card[0]);
            set_cim(&mut p, cim_array(&net.cim[0]));
            single.add_node(p).unwrap();
        } else if kind == 2 {
            single = g.amalgamation();
        }
        clients(e.u("clients"), |c| {
            let mut r = Mix(e.p("seed") as u64 ^ (c as u64) << 50);
            let seed = match e.p("seedkind") {
                0 => None,
                1 => Some(r.below(4)),
                2 => Some(r.next()),
                _ => Some(u64::MAX - r.below(3)),
            };
            let view = if kind == 2 { &flat } else { &net };
            let init = match e.p("initkind") {
                0 => None,
                _ => Some(view.card.iter().map(|&c| r.below(c as u64) as usize).collect()),
            };
            if kind == 0 {
                follow(&g, view, seed, init, steps, resets, &mut r)
            } else {
                follow(&single, view, seed, init, steps, resets, &mut r)
            }
        })
    })?;
    for x in all_ok(res)? {
        let (jumps, inf) = x?;
        e.count("transitions_checked", jumps as f64);
        e.count("infinite_times", inf as f64);
        simos::note(jumps);
    }
    e.count("wfault:restart", (resets * e.u("clients")) as f64);
    Ok(())
}
