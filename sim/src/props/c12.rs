//! C12: neighbourhood relative reward is exact and order independent.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::props::c10::{gen_mc, mc_of};
use crate::spec::gen_sched;
use model::net::{Mix, Net};
use reCTBN::process::{NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::{MonteCarloReward, NeighborhoodRelativeReward};
use reCTBN::reward::{RewardEvaluation, RewardFunction};
use std::collections::{BTreeMap, HashMap};

pub const PROP: Prop = Prop {
    id: "C12",
    gen,
    run,
    quick: (35000, 45.0),
    thorough: (3_000_000, 600.0),
    shrink: &[
        ("calls", Shrink::Int(1)),
        ("clients", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("iters", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("card", Shrink::Digits),
        ("edges", Shrink::Bits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = shape of the state space x positive rewards (given by a stub, or estimated by the real evaluation) x insertion order and hash keys x callers x schedule; all ratios are recomputed from the absolute rewards; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: "the inner evaluation is a table in most runs; kernel scheduler, futex, clock, sleep and entropy source are simulated",
};

fn gen(r: &mut Rng, i: u64, _t: bool) -> Spec {
    let mut s = Spec::new("C12");
    let real = i % 5 == 4;
    gen_net(
        &mut s,
        r,
        NetGen { n: (1, if real { 4 } else { 6 }), card: (2, 5), max_joint: if real { 30 } else { 200 }, max_parents: 2, styles: &[0, 1, 4] },
    );
    s.set("real", real as i64);
    gen_mc(&mut s, r, (1, 4));
    s.set("rwstyle", 5);
    s.set("spread", r.range(0, 4));
    s.set("calls", r.range(1, 3));
    s.set("clients", *r.pick(&[1, 1, 2]));
    s.set("workers", r.range(1, 5));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, 800_000);
    s
}

/// expected rewards by table; insertion order differs from call to call
struct Table {
    net: Net,
    v: Vec<f64>,
    calls: std::sync::atomic::AtomicU64,
}
impl RewardEvaluation for Table {
    fn evaluate_state_space<N: NetworkProcess, R: RewardFunction>(&self, _: &N, _: &R) -> HashMap<NetworkProcessState, f64> {
        cb("reward evaluation");
        let k = self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut r = Mix(k);
        let mut order: Vec<usize> = (0..self.v.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i as u64 + 1) as usize);
        }
        order.into_iter().map(|k| (st(&self.net.state(k)), self.v[k])).collect()
    }
    fn evaluate_state<N: NetworkProcess, R: RewardFunction>(&self, _: &N, _: &R, s: &NetworkProcessState) -> f64 {
        self.v[self.net.idx(&un(s))]
    }
}
enum Inner {
    T(NeighborhoodRelativeReward<Table>),
    M(NeighborhoodRelativeReward<MonteCarloReward>),
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let spec = e.spec;
    let rw = Rw::gen(&net.card, 5, e.p("rwseed") as u64);
    let real = e.p("real") != 0;
    // absolute rewards
    let abs: Vec<f64> = if real {
        let (net, rw) = (&net, &rw);
        e.alone(simos::Config::plain(e.p("entropy") as u64 ^ 0xa112), 1, move || {
            let g = build(net);
            let f = rw.factored(&g);
            let mc = mc_of(spec);
            (0..net.joint()).map(|k| mc.evaluate_state(&g, &f, &st(&net.state(k))).to_bits()).collect()
        })?
        .into_iter()
        .map(f64::from_bits)
        .collect()
    } else {
        let mut r = Mix(e.p("rwseed") as u64);
        (0..net.joint())
            .map(|_| match e.p("spread") {
                0 => 10f64.powf(12.0 * r.f() - 6.0),
                1 => 1.0 + r.f(),
                2 => (1 + r.below(4)) as f64,
                3 => 10f64.powf(100.0 * r.f() - 50.0),
                _ => 1.0 + 1e-9 * r.f(),
            })
            .collect()
    };
    if !abs.iter().all(|x| *x > 0.0 && x.is_finite()) {
        return fail("harness", "harness: rewards are not positive");
    }
    let calls = e.u("calls");
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(spec, e.p("warm"));
        let g = build(&net);
        let f = rw.factored(&g);
        let inner = if real {
            Inner::M(NeighborhoodRelativeReward::new(mc_of(spec)))
        } else {
            Inner::T(NeighborhoodRelativeReward::new(Table { net: net.clone(), v: abs.clone(), calls: 0.into() }))
        };
        clients(e.u("clients"), |_| {
            (0..calls)
                .map(|_| {
                    let m = match &inner {
                        Inner::T(x) => x.evaluate_state_space(&g, &f),
                        Inner::M(x) => x.evaluate_state_space(&g, &f),
                    };
                    m.into_iter().map(|(s, v)| (un(&s), v)).collect::<BTreeMap<Vec<usize>, f64>>()
                })
                .collect::<Vec<_>>()
        })
    })?;
    let want: Vec<f64> = (0..net.joint())
        .map(|k| {
            let s = net.state(k);
            let mut best: f64 = 1.0;
            for i in 0..net.n() {
                for y in 0..net.card[i] {
                    let mut t = s.clone();
                    t[i] = y;
                    best = best.max(abs[k] / abs[net.idx(&t)]);
                }
            }
            best
        })
        .collect();
    for m in all_ok(res)?.into_iter().flatten() {
        check!(m.len() == net.joint(), "states", "{} entries for {} states", m.len(), net.joint());
        for k in 0..net.joint() {
            let s = net.state(k);
            match m.get(&s) {
                None => return fail("states", format!("no entry for {:?}", s)),
                Some(v) => {
                    simos::note(v.to_bits());
                    check!(
                        ((v - want[k]) / want[k]).abs() < 1e-12,
                        "ratio",
                        "{:?}: relative reward {} instead of {}",
                        s,
                        v,
                        want[k]
                    );
                }
            }
        }
        e.count("ratios_compared", net.joint() as f64);
    }
    if real {
        e.count("runs_with_real_inner_evaluation", 1.0);
    }
    Ok(())
}
