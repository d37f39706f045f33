//! C05: unseeded components use fresh system entropy.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::{Mix, Net};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::RewardEvaluation;
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::tools::*;
use simos::{Fault, Fk};

pub const PROP: Prop = Prop {
    id: "C05",
    gen,
    run,
    quick: (6000, 60.0),
    thorough: (600_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("count", Shrink::Int(2)),
        ("census", Shrink::Int(0)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = kind of unseeded component x number of instances per thread x threads x entropy stream with interrupted and short answers x (frozen) clock x schedule; every pair of instances is compared, and the whole is compared with a process that differs in the entropy only; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};
const KINDS: i64 = 6;
const NAMES: [&str; KINDS as usize] =
    ["sampler", "trajectory_generator", "generate_graph", "generate_parameters", "evaluate_state", "evaluate_state_space"];

fn gen(r: &mut Rng, i: u64, _t: bool) -> Spec {
    let mut s = Spec::new("C05");
    // symmetric networks: equal streams give equal results whatever the state
    s.set("n", r.range(2, 4));
    s.set("kind", (i % (KINDS as u64 + 1)) as i64);
    s.set("clients", r.range(1, 4));
    s.set("count", if r.below(6) == 0 { r.range(100, 600) } else { r.range(2, 10) });
    if s.get("kind") >= 4 {
        s.set("count", s.get("count").min(8));
        s.set("n", 2);
    }
    if r.below(120) == 0 {
        s.set("census", r.range(60_000, 140_000));
    }
    s.set("init", r.range(0, 1));
    s.set("workers", r.range(1, 5));
    gen_env(&mut s, r);
    s.set("ns_per_point", *r.pick(&[0, 0, 3]));
    s.set("flip", (r.next() >> 40) as i64);
    let (n, card) = (s.get("n") as usize, r.range(2, 4) as usize);
    s.set("card", pack_card(&vec![card; n]));
    s.set("edges", 0);
    s.set("rates", 1);
    s.set("style", 0);
    s.set("warm", if r.below(3) == 0 { 0b1_1101 } else { 0 });
    gen_faults(&mut s, r);
    if r.below(2) == 0 {
        for _ in 0..r.range(1, 12) {
            let n = r.below(16);
            s.faults.push(if r.below(2) == 0 {
                Fault { kind: Fk::Eintr, n, arg: 0 }
            } else {
                Fault { kind: Fk::Short, n, arg: r.below(31) }
            });
        }
    }
    if r.below(8) == 0 {
        // the entropy trickles in byte by byte
        if s.get("kind") < 4 {
            s.set("count", r.range(40, 150));
        }
        s.faults.retain(|f| f.kind != Fk::Short);
        for n in 0..r.range(40, 200) as u64 {
            s.faults.push(Fault { kind: Fk::Short, n, arg: 0 });
        }
    }
    s.sched = gen_sched(r, 400_000);
    s
}

/// every variable leaves every state with the same rate
fn symmetric(s: &Spec) -> Net {
    let mut net = net_of(s);
    for i in 0..net.n() {
        let c = net.card[i];
        net.cim[i] = vec![(0..c)
            .map(|x| (0..c).map(|y| if x == y { -((c - 1) as f64) } else { 1.0 }).collect())
            .collect()];
    }
    net
}

/// the stream class and what one new unseeded component produces
fn product(s: &Spec, kind: i64, net: &Net, g: &CtbnNetwork, rw: &Rw) -> (u8, Vec<Vec<u64>>) {
    let init = if s.get("init") == 1 { Some(st(&vec![0; net.n()])) } else { None };
    match kind {
        0 => {
            let mut x = ForwardSampler::new(g, None, init);
            let a: Vec<u64> = x.by_ref().skip(1).take(4).map(|x| x.t.to_bits()).collect();
            x.reset();
            let b: Vec<u64> = x.skip(1).take(4).map(|x| x.t.to_bits()).collect();
            (0, vec![a, b])
        }
        1 => {
            let d = trajectory_generator(g, 2, 50.0 / net.max_exit(), None);
            (0, d.get_trajectories().iter().map(|t| t.get_time().iter().skip(1).take(4).map(|x| x.to_bits()).collect()).collect())
        }
        2 => {
            let mut x: UniformGraphGenerator = RandomGraphGenerator::new(0.5, None);
            let mut g = CtbnNetwork::new();
            for i in 0..9 {
                g.add_node(param(&format!("n{}", i), 2)).unwrap();
            }
            let mut v = vec![];
            for _ in 0..2 {
                x.generate_graph(&mut g);
                v.push(graph_bits(&g));
            }
            (1, v)
        }
        3 => {
            let mut x: UniformParametersGenerator = RandomParametersGenerator::new(1.0..3.0, None);
            let mut g = build_structure(net);
            let mut v = vec![];
            for _ in 0..2 {
                x.generate_parameters(&mut g);
                let mut f = vec![];
                for i in 0..net.n() {
                    f.extend(params_bits(g.get_node(i)));
                }
                v.push(f);
            }
            (2, v)
        }
        k => {
            let mc = MonteCarloReward::new(
                3,
                1.0,
                0.0,
                12.0 / net.max_exit(),
                RewardCriteria::InfiniteHorizon { discount_factor: 0.3 },
                None,
            );
            let f = rw.factored(g);
            if k == 4 {
                (3, vec![vec![mc.evaluate_state(g, &f, &st(&vec![0; net.n()])).to_bits()]])
            } else {
                (3, mc.evaluate_state_space(g, &f).into_values().map(|x| vec![x.to_bits()]).collect())
            }
        }
    }
}

fn run(e: &Env) -> Res {
    let net = symmetric(e.spec);
    let rw = Rw {
        inst: net.card.iter().map(|&c| vec![0.0; c]).collect(),
        trans: net.card.iter().map(|&c| vec![vec![1.0; c]; c]).collect(),
    };
    let kind_of = |c: usize, k: usize| {
        let kind = e.p("kind");
        if kind < KINDS {
            kind
        } else {
            Mix((c * 1000 + k) as u64 ^ e.p("entropy") as u64).below(KINDS as u64) as i64
        }
    };
    // the same instance in processes that differ in the entropy only
    let k0 = kind_of(0, 0);
    let one = |cfg: simos::Config| {
        let (net, rw) = (&net, &rw);
        e.alone(cfg, 2, move || {
            let g = build(net);
            let (_, v) = product(e.spec, k0, net, &g, rw);
            let mut out: Vec<u64> = v.into_iter().flatten().collect();
            out.push(simos::sys_bytes());
            out
        })
    };
    let mut cfg = simos::Config::plain(e.p("entropy") as u64);
    cfg.ns_per_point = 0;
    let mut other = cfg.clone();
    other.entropy ^= 1 << (e.p("flip") % 40);
    let mut a = one(cfg.clone())?;
    let mut b = one(other)?;
    let used = a.pop().unwrap();
    b.pop();
    check!(
        a != b,
        "entropy-ignored",
        "{}: two processes that receive different entropy at the same instant produce the same result",
        NAMES[k0 as usize]
    );
    e.count("process_pairs", 1.0);
    if used > 0 && k0 != 5 {
        // invert a single bit of the entropy
        let bit = e.p("flip") as u64 % (used * 8);
        cfg.flip = Some(bit);
        let mut c = one(cfg)?;
        c.pop();
        check!(
            a != c,
            "entropy-ignored",
            "{}: bit {} of the {} bytes of entropy received has no influence on the result",
            NAMES[k0 as usize],
            bit,
            used
        );
        e.count("single_bit_pairs", 1.0);
    }
    // so many instances that seeds of 32 bits would meet
    let census = e.spec.opt("census", 0) as usize;
    if census > 0 {
        let kind = e.p("kind").min(3) % 3;
        let net = Net::with_parents(&[2], vec![vec![]], 1, 1);
        let firsts = e.sim_ok(1, || {
            let g = build(&net);
            (0..census)
                .map(|_| match kind {
                    0 => {
                        let x = ForwardSampler::new(&g, None, None).nth(2).unwrap();
                        [x.t.to_bits(), 0]
                    }
                    1 => {
                        let d = trajectory_generator(&g, 1, 4.0 / net.max_exit(), None);
                        let t = d.get_trajectories()[0].get_time();
                        [t[1].to_bits(), t[t.len() - 2].to_bits()]
                    }
                    _ => {
                        let mut g = build_structure(&net);
                        UniformParametersGenerator::new(1.0..3.0, None).generate_parameters(&mut g);
                        let p = params_bits(g.get_node(0));
                        [p.iter().fold(0, |a, x| simos::mix2(a, *x)), 0]
                    }
                })
                .filter(|x| kind != 1 || f64::from_bits(x[0]) < 4.0 / net.max_exit())
                .collect::<Vec<[u64; 2]>>()
        })?;
        let mut sorted = firsts.clone();
        sorted.sort();
        let dup = sorted.windows(2).filter(|w| w[0] == w[1]).count();
        e.count("instances counted", firsts.len() as f64);
        check!(dup == 0, "repeated", "{} of {} instances ({}) repeat the stream of another", dup, firsts.len(), NAMES[[0, 1, 3][kind as usize]]);
        return Ok(());
    }
    // many instances in one process
    let count = e.u("count");
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        clients(e.u("clients"), |c| {
            (0..count)
                .map(|k| {
                    let kind = kind_of(c, k);
                    (kind, k, product(e.spec, kind, &net, &g, &rw))
                })
                .filter(|x| count < 20 || x.0 < 4 || x.1 < 10)
                .collect::<Vec<_>>()
        })
    })?;
    let mut seen = std::collections::BTreeMap::new();
    for (c, v) in all_ok(res)?.into_iter().enumerate() {
        for (kind, k, (class, parts)) in v {
            for (j, p) in parts.into_iter().enumerate() {
                for x in &p {
                    simos::note(*x);
                }
                if let Some((c2, kind2, k2, j2)) = seen.insert((class, p), (c, kind, k, j)) {
                    return fail(
                        "repeated",
                        format!(
                            "{} {} of thread {} (part {}) repeats the stream of {} {} of thread {} (part {})",
                            NAMES[kind as usize], k, c, j, NAMES[kind2 as usize], k2, c2, j2
                        ),
                    );
                }
                e.count("streams_compared", 1.0);
            }
        }
    }
    Ok(())
}
