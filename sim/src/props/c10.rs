//! C10: reward of the state space is complete and pointwise consistent.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::spec::gen_sched;
use reCTBN::process::NetworkProcessState;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::RewardEvaluation;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C10",
    gen,
    run,
    quick: (4000, 60.0),
    thorough: (400000, 600.0),
    shrink: &[
        ("calls", Shrink::Int(1)),
        ("workers", Shrink::Int(1)),
        ("iters", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("crit", Shrink::Int(0)),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Schedules,
    rule: "one case = network x reward x Monte Carlo setting x worker count x schedule; non-trivial when at least two threads were switched between while the state space was evaluated; distinct by the sequence of (code location, thread, thread) of all context switches",
    real: REAL_ALL,
    stub: STUB_OS,
};

pub fn mc_of(s: &Spec) -> MonteCarloReward {
    let crit = match s.get("crit") {
        0 => RewardCriteria::FiniteHorizon,
        k => RewardCriteria::InfiniteHorizon { discount_factor: 0.1 * k as f64 },
    };
    MonteCarloReward::new(
        s.get("iters") as usize,
        s.get("err100") as f64 * 0.01,
        s.get("alpha100") as f64 * 0.01,
        s.get("end10") as f64 * 0.1,
        crit,
        Some(s.get("seed") as u64),
    )
}
pub fn gen_mc(s: &mut Spec, r: &mut Rng, iters: (i64, i64)) {
    s.set("iters", r.range(iters.0, iters.1));
    s.set("err100", *r.pick(&[1, 10, 100]));
    s.set("alpha100", *r.pick(&[0, 10, 50]));
    s.set("end10", r.range(3, 20));
    s.set("crit", *r.pick(&[0, 0, 1, 5, 10]));
    s.set("seed", *r.pick(&[0, 1, 215, 4164901764658873, i64::MAX]) ^ r.range(0, 3));
    s.set("rwstyle", r.range(0, 5));
    s.set("rwseed", (r.next() >> 40) as i64);
}

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C10");
    let big = r.below(5) == 0;
    gen_net(
        &mut s,
        r,
        NetGen {
            n: if big { (3, 7) } else { (1, 4) },
            card: (2, 4),
            max_joint: if big { 400 } else { 36 },
            max_parents: 3,
            styles: &[0, 1, 2, 4, 5, 8],
        },
    );
    gen_mc(&mut s, r, if big { (1, 3) } else { (1, 8) });
    s.set("workers", r.range(1, 6));
    s.set("calls", r.range(1, 3));
    if r.below(8) == 0 {
        // one large domain
        let c = *r.pick(&[9, 17, 18, 33, 40, 65, 129, 260]);
        s.set("n", if c < 50 { r.range(1, 2) } else { 1 });
        s.set("card", pack_card(&[2, 2][..s.get("n") as usize]));
        s.set("edges", if s.get("n") == 2 { *r.pick(&[0, 2, 256, 258]) } else { 0 });
        s.set("bigc", c);
        s.set("style", 1);
        s.set("iters", r.range(1, 2));
        s.set("end10", 1);
    }
    if r.below(if t { 60 } else { 250 }) == 0 {
        // more joint states than a 16-bit index can tell apart
        let card = if r.below(2) == 0 { vec![4; 8] } else { vec![5; 7] };
        s.p.remove("bigc");
        s.set("n", card.len() as i64);
        s.set("card", pack_card(&card));
        s.set("edges", 0);
        s.set("style", 1);
        s.set("iters", 1);
        s.set("calls", 1);
        s.set("end10", 1);
    }
    gen_env(&mut s, r);
    if net_of(&s).joint() > 20_000 {
        s.set("budget", 16_000_000_000);
        s.set("logs", 0);
        s.set("nested", 0);
    }
    let net = net_of(&s);
    let steps = net.joint() as f64 * s.get("iters") as f64 * (1.0 + s.get("end10") as f64 * 0.1 * 3.0);
    s.sched = gen_sched(r, (steps * 900.0) as u64);
    s
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let rw = Rw::gen(&net.card, e.p("rwstyle"), e.p("rwseed") as u64);
    let spec = e.spec;
    // every state evaluated alone, sequentially, in another process
    let mut cfg = simos::Config::plain(spec.get("entropy") as u64 ^ 0x9999);
    cfg.ncpu = 1;
    // of very many states only some
    let stride = if net.joint() > 20_000 { 61 } else { 1 };
    let base = {
        let (net, rw) = (&net, &rw);
        e.alone(cfg, 1, move || {
            let g = build(net);
            let f = rw.factored(&g);
            let mc = mc_of(spec);
            (0..net.joint()).step_by(stride).map(|k| mc.evaluate_state(&g, &f, &st(&net.state(k))).to_bits()).collect()
        })?
    };
    let calls = e.u("calls");
    let out: Vec<Vec<(NetworkProcessState, f64)>> = e.sim_ok(e.u("workers"), || {
        let g = build(&net);
        let f = rw.factored(&g);
        let mc = mc_of(spec);
        in_pool(|| (0..calls).map(|_| mc.evaluate_state_space(&g, &f).into_iter().collect()).collect())
    })?;
    for (c, m) in out.iter().enumerate() {
        let mut seen = BTreeMap::new();
        for (s, v) in m {
            let s = un(s);
            check!(
                s.len() == net.n() && s.iter().zip(&net.card).all(|(x, c)| x < c),
                "foreign-state",
                "call {}: {:?} is not a joint state",
                c,
                s
            );
            seen.insert(net.idx(&s), *v);
            simos::note(v.to_bits());
        }
        for k in 0..net.joint() {
            match seen.get(&k) {
                None => return fail("missing-state", format!("call {}: no entry for {:?}", c, net.state(k))),
                Some(v) => check!(
                    k % stride != 0 || v.to_bits() == base[k / stride],
                    "value-differs",
                    "call {}: state {:?} evaluates to {} in the state space and to {} alone",
                    c,
                    net.state(k),
                    v,
                    f64::from_bits(base[k / stride])
                ),
            }
        }
        check!(m.len() == net.joint(), "extra-entries", "call {}: {} entries for {} states", c, m.len(), net.joint());
        e.count("states_compared", net.joint() as f64);
    }
    e.count("calls", calls as f64);
    Ok(())
}
