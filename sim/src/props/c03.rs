//! C03: restarting a sampler forgets the past.
use super::*;
use crate::glue::*;
use crate::ops::*;
use crate::props::c02::{feed, uniform_states};
use crate::spec::gen_sched;
use model::law::*;
use model::net::Mix;
use model::stat::*;
use reCTBN::sampling::{ForwardSampler, Sampler};

pub const PROP: Prop = Prop {
    id: "C03",
    gen,
    run,
    quick: (2500, 50.0),
    thorough: (200_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("samplers", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = network x restart points of several interleaved samplers x seeds or entropy x schedule; the segments between thousands of restarts are tested against the exact law; non-trivial: at least 300 restarts; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C03");
    let small = r.below(2) == 0;
    gen_net(
        &mut s,
        r,
        NetGen {
            n: if small { (1, 3) } else { (1, 6) },
            card: (2, 4),
            max_joint: if small { 12 } else { 700 },
            max_parents: 3,
            styles: super::c02::ST,
        },
    );
    widen(&mut s, r, 5000);
    let crowded = crowd(&mut s, r, 60);
    let clients = *r.pick(&[1, 1, 1, 2, 3]);
    let ops = (if t { 3 } else { 1 }) * r.range(3_000, 16_000) / clients;
    let ops = if crowded { ops / 8 } else { ops };
    s.set("clients", clients);
    s.set("samplers", r.range(1, 3));
    s.set("ops", ops);
    s.set("unseeded", (r.below(3) == 0) as i64);
    s.set("initkind", r.range(0, 2));
    s.set("lenkind", r.range(0, 3));
    s.set("seed", (r.next() >> 30) as i64);
    rescale(&mut s, r);
    gen_env(&mut s, r);
    s.set("logs", 0);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, (clients * ops * 900) as u64);
    s
}

struct Seg {
    first: Vec<f64>,
    gap: Vec<f64>,
    begun: Vec<Vec<usize>>,
    resets: u64,
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let seed = |k: u64| if e.p("unseeded") != 0 { None } else { Some((e.p("seed") as u64).wrapping_add(k)) };
    let m = e.u("samplers");
    let fixed = e.p("initkind") == 1;
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        clients(e.u("clients"), |c| {
            let mut r = Mix(e.p("seed") as u64 ^ 0x3c03 ^ (c as u64) << 48);
            let inits: Vec<Vec<usize>> = (0..m).map(|_| net.card.iter().map(|&c| r.below(c as u64) as usize).collect()).collect();
            let mut laws: Vec<Law> = (0..m).map(|_| Law::new(&net)).collect();
            let mut segs: Vec<Seg> =
                (0..m).map(|_| Seg { first: vec![], gap: vec![], begun: vec![], resets: 0 }).collect();
            let mut sam: Vec<_> = (0..m)
                .map(|k| {
                    ForwardSampler::new(
                        &g,
                        seed((c * 8 + k) as u64),
                        if fixed { Some(st(&inits[k])) } else { None },
                    )
                })
                .collect();
            // samples since the last reset and time of the last sample
            let mut len = vec![0usize; m];
            let mut time = vec![0.0; m];
            let mut todo = vec![0usize; m];
            for _ in 0..e.u("ops") {
                let k = r.below(m as u64) as usize;
                if todo[k] == 0 {
                    // a restart, possibly several, then the length of the next segment
                    if len[k] > 0 || r.below(4) == 0 {
                        for _ in 0..1 + (r.below(6) == 0) as usize * r.below(3) as usize {
                            sam[k].reset();
                            segs[k].resets += 1;
                        }
                    }
                    len[k] = 0;
                    time[k] = 0.0;
                    todo[k] = match e.p("lenkind") {
                        0 => 2,
                        1 => 1 + r.below(3) as usize,
                        2 => r.below(8) as usize,
                        _ => 1 + r.below(40) as usize,
                    };
                    continue;
                }
                todo[k] -= 1;
                let x = sam[k].next().unwrap();
                let now = un(&x.state);
                if len[k] == 0 {
                    check!(x.t == 0.0, "start", "after a restart the first sample is at time {:e}", x.t);
                    check!(
                        now.len() == net.n() && now.iter().zip(&net.card).all(|(a, c)| a < c),
                        "domain",
                        "{:?} is no state of the process",
                        now
                    );
                    if fixed {
                        check!(now == inits[k], "start", "restarts in {:?} instead of {:?}", now, inits[k]);
                    }
                    laws[k].begin(&now);
                    segs[k].begun.push(now);
                } else {
                    if len[k] == 1 {
                        let q: f64 = (0..net.n()).map(|i| net.exit(i, laws[k].state())).sum();
                        segs[k].first.push(x.t * q);
                        segs[k].gap.push(x.t);
                    }
                    feed(&mut laws[k], &mut time[k], &x, len[k])?;
                }
                len[k] += 1;
            }
            Ok((laws, segs))
        })
    })?;
    let mut prints: Vec<Vec<u64>> = vec![];
    for x in all_ok(res)? {
        let (laws, segs) = x?;
        for (mut law, mut seg) in laws.into_iter().zip(segs) {
            e.count("wfault:restart", seg.resets as f64);
            e.count("transitions", law.events as f64);
            simos::note(law.time.to_bits());
            let v = law.verdict();
            e.max("rate deviation exponent (alarm at 25)", law.max_dev);
            e.max("sqrt(n) KS distance (alarm at 3.6)", law.max_ks);
            lawful(v)?;
            if !fixed {
                uniform_states(&net, &seg.begun)?;
            }
            let mut g: Vec<u64> = seg.gap.iter().map(|x| x.to_bits()).collect();
            g.sort();
            let dup = g.windows(2).filter(|w| w[0] == w[1]).count();
            check!(dup <= 2, "repeat", "{} first waiting times of {} segments are exact repetitions", dup, g.len());
            prints.push(seg.gap.iter().take(6).map(|x| x.to_bits()).collect());
            if seg.first.len() >= 200 {
                let u: Vec<f64> = seg.first.iter().map(|x| (-x).exp()).collect();
                for lag in 1..=2 {
                    let z = corr_z(&u[..u.len() - lag], &u[lag..]);
                    check!(z.abs() < Z_TH, "correlated", "first waiting times of segments {} apart are correlated, z={:.1}", lag, z);
                }
                let k = ks_exp(&mut seg.first);
                e.max("sqrt(n) KS distance of first waiting times (alarm at 3.6)", k);
                check!(
                    k < KS_TH,
                    "first",
                    "the first waiting time after a restart does not follow the total exit rate, sqrt(n) D = {:.2}, n = {}",
                    k,
                    seg.first.len()
                );
            }
        }
    }
    for i in 0..prints.len() {
        for j in 0..i {
            check!(prints[i].len() < 3 || prints[i] != prints[j], "repeat", "two samplers produce the same segments");
        }
    }
    Ok(())
}
