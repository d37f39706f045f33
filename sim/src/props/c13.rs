//! C13: a failing user callback reaches the caller and leaves no trace.
use super::*;
use crate::glue::*;
use crate::learn::*;
use crate::ops::*;
use crate::props::c10::{gen_mc, mc_of};
use crate::spec::gen_sched;
use model::net::{Mix, Net};
use reCTBN::parameter_learning::{BayesianApproach, MLE};
use reCTBN::reward::reward_evaluation::NeighborhoodRelativeReward;
use reCTBN::reward::RewardEvaluation;
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::{trajectory_generator, Dataset};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
    id: "C13",
    gen,
    run,
    quick: (40000, 60.0),
    thorough: (3_000_000, 600.0),
    shrink: &[
        ("calls", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("iters", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Schedules,
    rule: "one case = kind of call x callback that fails x positions of the failures (spread over all callbacks of the calls) x number of calls x workers x schedule; a call in which a failure was injected must end with it, every other call must return what a fresh process returns; distinct by the sequence of (code location, thread, thread) of all context switches",
    real: REAL_ALL,
    stub: "user callbacks wrap the library's own ones; kernel scheduler, futex, clock, sleep and entropy source are simulated",
};
const KINDS: i64 = 11;
const NAMES: [&str; KINDS as usize] = [
    "evaluate_state_space with a failing reward function",
    "evaluate_state_space on a failing process",
    "evaluate_state with a failing reward function",
    "neighbourhood reward with a failing reward function",
    "hill climbing with a failing synthetic score",
    "hill climbing with a failing score",
    "hill climbing on a failing process",
    "ctpc with a failing synthetic learner",
    "ctpc with a failing learner",
    "ctpc on a failing process",
    "trajectory_generator on a failing process",
];

fn gen(r: &mut Rng, i: u64, _t: bool) -> Spec {
    let mut s = Spec::new("C13");
    let kind = (i % KINDS as u64) as i64;
    gen_net(
        &mut s,
        r,
        NetGen {
            n: (1, 4),
            card: (2, 3),
            max_joint: if kind < 4 { 24 } else { 81 },
            max_parents: 2,
            styles: &[0, 1, 2, 5, 8],
        },
    );
    s.set("kind", kind);
    gen_mc(&mut s, r, (1, 5));
    s.set("calls", r.range(2, 5));
    s.set("workers", r.range(1, 6));
    s.set("lseed", (r.next() >> 30) as i64);
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    gen_faults(&mut s, r);
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 8]) {
        let n = match r.below(4) {
            0 => r.below(1000),
            1 => r.below(20_000),
            _ => r.below(100_000),
        };
        s.faults.push(Fault { kind: Fk::Panic, n, arg: 0 });
    }
    s.sched = gen_sched(r, 700_000);
    s
}

struct Objects {
    net: Net,
    g: reCTBN::process::ctbn::CtbnNetwork,
    h: HNet,
    rw: Rw,
    r: HReward,
    mc: reCTBN::reward::reward_evaluation::MonteCarloReward,
    nrr: NeighborhoodRelativeReward<reCTBN::reward::reward_evaluation::MonteCarloReward>,
    hc_syn: HillClimbing<SynScore>,
    hc: HillClimbing<HScore<BIC>>,
    hc_net: HillClimbing<LogLikelihood>,
    pc_syn: CTPC<SynLearner>,
    pc: CTPC<HLearner<Dense<MLE>>>,
    pc_net: CTPC<Dense<BayesianApproach>>,
    data: Dataset,
}
impl Objects {
    fn new(s: &Spec) -> Objects {
        let net = net_of(s);
        let seed = s.get("lseed") as u64;
        let mut m = Mix(seed);
        let g = build(&net);
        let rw = Rw::gen(&net.card, s.get("rwstyle").min(4), s.get("rwseed") as u64);
        let mut pos = rw.clone();
        pos.inst.iter_mut().flatten().for_each(|x| *x = x.abs() + 0.5);
        pos.trans.iter_mut().flatten().flatten().for_each(|x| *x = x.abs());
        let rw = if s.get("kind") == 3 { pos } else { rw };
        let tests = |m: &mut Mix| (F::new([0.01, 0.1][m.below(2) as usize]), ChiSquare::new([0.01, 0.1][m.below(2) as usize]));
        let data = dataset(&model::law::simulate(&net, m.next(), 3, f64::INFINITY, 25));
        let (t1, t2, t3) = (tests(&mut m), tests(&mut m), tests(&mut m));
        Objects {
            h: HNet { g: build(&net), armed: true },
            r: HReward { f: rw.factored(&g) },
            mc: mc_of(s),
            nrr: NeighborhoodRelativeReward::new(mc_of(s)),
            hc_syn: HillClimbing::new(SynScore { style: m.below(7) as i64, seed }, None),
            hc: HillClimbing::new(HScore(BIC::new(1, 1.0)), Some(2)),
            hc_net: HillClimbing::new(LogLikelihood::new(1, 0.7), Some(2)),
            // no empty rows: the tests do not survive them (known findings of C08)
            pc_syn: CTPC::new(SynLearner { pz: 0, ..SynLearner::new(&net.card, seed) }, t1.0, t1.1),
            pc: CTPC::new(HLearner(Dense(MLE {})), t2.0, t2.1),
            pc_net: CTPC::new(Dense(BayesianApproach { alpha: 1, tau: 1.0 }), t3.0, t3.1),
            net,
            g,
            rw,
            data,
        }
    }
    fn call(&self, kind: i64) -> Vec<u64> {
        let card = &self.net.card;
        let fresh = || HNet { g: scratch(card, 5, true), armed: true };
        match kind {
            0 => space_bits(&self.net, self.mc.evaluate_state_space(&self.g, &self.r)),
            1 => space_bits(&self.net, self.mc.evaluate_state_space(&self.h, &self.rw.factored(&self.g))),
            2 => vec![nan(self.mc.evaluate_state(&self.g, &self.r, &st(&vec![0; card.len()])))],
            3 => space_bits(&self.net, self.nrr.evaluate_state_space(&self.g, &self.r)),
            4 => halves(parent_masks(&self.hc_syn.fit_transform(scratch(card, 5, true), &self.data))),
            5 => halves(parent_masks(&self.hc.fit_transform(scratch(card, 5, true), &self.data))),
            6 => halves(parent_masks(&self.hc_net.fit_transform(fresh(), &self.data))),
            7 => halves(parent_masks(&self.pc_syn.fit_transform(scratch(card, 5, true), &self.data))),
            8 => halves(parent_masks(&self.pc.fit_transform(scratch(card, 5, true), &self.data))),
            9 => halves(parent_masks(&self.pc_net.fit_transform(fresh(), &self.data))),
            _ => dataset_bits(&trajectory_generator(&self.h, 3, 3.0 / self.net.max_exit(), Some(7))),
        }
    }
}

fn run(e: &Env) -> Res {
    let spec = e.spec;
    let kind = e.p("kind");
    let mut base = e.alone(simos::Config::plain(e.p("entropy") as u64 ^ 0xa113), 1, move || {
        let o = Objects::new(spec);
        let mut v = o.call(kind);
        v.push(simos::site_count(Fk::Panic));
        v
    })?;
    let callbacks = base.pop().unwrap();
    let calls = e.u("calls");
    e.scale.set(callbacks * calls as u64);
    let out = e.sim_ok(e.u("workers"), || {
        warm_up(spec, e.p("warm"));
        let o = Objects::new(spec);
        let mut out = vec![];
        // after the calls that may fail, one that cannot
        for k in 0..=calls {
            if k == calls {
                simos::quiet(true);
            }
            let before = simos::fired(Fk::Panic);
            let r = catch_unwind(AssertUnwindSafe(|| in_pool(|| o.call(kind)))).map_err(|p| payload(&p));
            out.push((simos::fired(Fk::Panic) - before, r));
        }
        simos::quiet(false);
        out
    })?;
    let mut failures = 0;
    for (k, (injected, r)) in out.into_iter().enumerate() {
        let name = NAMES[kind as usize];
        match r {
            Err(m) => {
                check!(m.starts_with(PLANNED), "panic", "{}, call {} (after {} failures): {}", name, k, failures, m);
                check!(injected > 0, "late", "{}, call {}: ends with the failure of an earlier call", name, k);
                failures += 1;
                e.count("calls_ended_by_a_failure", 1.0);
                if injected > 1 {
                    e.count("calls_with_several_failures", 1.0);
                }
            }
            Ok(v) => {
                check!(injected == 0, "swallowed", "{}, call {}: a callback panicked and the call returned a result", name, k);
                for x in &v {
                    simos::note(*x);
                }
                check!(v == base, "trace", "{}, call {} after {} failed calls differs from a fresh process", name, k, failures);
                e.count(if failures > 0 { "results_compared_after_a_failure" } else { "results_compared" }, 1.0);
            }
        }
    }
    Ok(())
}
