//! C14: concurrent callers do not influence one another.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::learn::*;
use crate::ops::*;
use crate::props::c04::{pick_op, world_net};
use crate::spec::gen_sched;
use model::net::Mix;
use reCTBN::parameter_learning::{ParameterLearning, MLE};
use reCTBN::params::Params;
use reCTBN::process::{NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::{Reward, RewardEvaluation, RewardFunction};
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::ScoreFunction;
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::Dataset;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub const PROP: Prop = Prop {
    id: "C14",
    gen,
    run,
    quick: (13000, 60.0),
    thorough: (3_000_000, 600.0),
    shrink: &[
        ("failing", Shrink::Int(0)),
        ("clients", Shrink::Int(1)),
        ("nops", Shrink::Int(1)),
        ("hammer", Shrink::Int(1)),
        ("rows", Shrink::Int(2)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Schedules,
    rule: "one case = operations of 2-4 threads on one shared set of network, dataset, learners and evaluators x failing calls of further threads on the same objects x workers x schedule; each result is compared bit for bit with the operation executed alone in a fresh process; distinct by the sequence of (code location, thread, thread) of all context switches",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, _t: bool) -> Spec {
    let mut s = Spec::new("C14");
    gen_net(&mut s, r, world_net());
    s.set("opseed", (r.next() >> 30) as i64);
    // often all threads do the same kind of thing
    if r.below(2) == 0 {
        s.set("only", r.range(0, N_OPS - 1));
    }
    s.set("nops", r.range(1, 2));
    s.set("clients", r.range(1, 4));
    // short operations repeated many times, with arguments shared by the threads
    if r.below(3) == 0 {
        s.set("only", *r.pick(&SHORT_OPS));
        s.set("hammer", r.range(2, 40));
        s.set("pool", r.range(1, 4));
        s.set("nops", r.range(1, 4));
        s.set("clients", r.range(2, 5));
        s.set("rows", r.range(2, 12));
    }
    s.set("failing", if s.get("clients") == 1 { r.range(1, 2) } else { *r.pick(&[0, 0, 1, 2]) });
    s.set("failat", r.range(0, 60));
    s.set("workers", r.range(1, 6));
    s.set("wseed", r.range(0, 1 << 20));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, 1_500_000);
    s
}

/// fails at its k-th call, whatever others do
struct Bomb<X> {
    x: X,
    left: AtomicU64,
}
impl<X> Bomb<X> {
    fn new(x: X, k: u64) -> Bomb<X> {
        Bomb { x, left: AtomicU64::new(k) }
    }
    fn tick(&self, what: &str) {
        simos::callback_point();
        if self.left.fetch_sub(1, Ordering::Relaxed) == 0 {
            panic!("{}{}", PLANNED, what);
        }
    }
}
impl<X: RewardFunction> RewardFunction for Bomb<X> {
    fn call(&self, c: &NetworkProcessState, p: Option<&NetworkProcessState>) -> Reward {
        self.tick("reward function");
        self.x.call(c, p)
    }
    fn initialize_from_network_process<T: NetworkProcess>(p: &T) -> Self {
        Bomb::new(X::initialize_from_network_process(p), 0)
    }
}
impl<X: ScoreFunction> ScoreFunction for Bomb<X> {
    fn call<T: NetworkProcess>(&self, n: &T, i: usize, s: &BTreeSet<usize>, d: &Dataset) -> f64 {
        self.tick("score function");
        self.x.call(n, i, s, d)
    }
}
impl<X: ParameterLearning> ParameterLearning for Bomb<X> {
    fn fit<T: NetworkProcess>(&self, n: &T, d: &Dataset, i: usize, s: Option<BTreeSet<usize>>) -> Params {
        self.tick("parameter learner");
        self.x.fit(n, d, i, s)
    }
}
/// a call on the shared objects that fails (unless it needs fewer callbacks)
fn failing(w: &World, kind: u64, k: u64, seed: u64) -> Result<Vec<u64>, String> {
    catch_unwind(AssertUnwindSafe(|| match kind {
        0 | 1 => {
            let mc = MonteCarloReward::new(4, 1.0, 0.0, 2.0, RewardCriteria::FiniteHorizon, Some(seed));
            let f = Bomb::new(w.rw.factored(&w.g), k);
            if kind == 0 {
                space_bits(&w.net, mc.evaluate_state_space(&w.g, &f))
            } else {
                vec![mc.evaluate_state(&w.g, &f, &st(&w.net.state(0))).to_bits()]
            }
        }
        2 => {
            let hc = HillClimbing::new(Bomb::new(SynScore { style: 0, seed }, k), None);
            halves(parent_masks(&hc.fit_transform(w.empty(seed), &w.data)))
        }
        _ => {
            let pc = CTPC::new(Bomb::new(Dense(MLE {}), k), F::new(0.01), ChiSquare::new(0.01));
            halves(parent_masks(&pc.fit_transform(w.empty(seed), &w.data)))
        }
    }))
    .map_err(|p| payload(&p))
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let wseed = e.p("wseed") as u64;
    let (nc, no, nf) = (e.u("clients"), e.u("nops"), e.u("failing"));
    let rows = e.spec.opt("rows", 30) as usize;
    let hammer = e.spec.opt("hammer", 1) as usize;
    let mut base = vec![];
    for c in 0..nc {
        for k in 0..no {
            let (kind, a) = pick_op(e.spec, c as u64, k as u64);
            let cfg = simos::Config::plain(simos::mix2(e.p("entropy") as u64, 0xa114 + (c * 10 + k) as u64));
            let net = &net;
            base.push(e.alone(cfg, 1 + (a % 2) as usize, move || World::with_data(net, wseed, 5, rows).op(kind, a))?);
            e.count(&format!("op {}", OP_NAMES[kind as usize]), 1.0);
        }
    }
    type Out = (Vec<Vec<u64>>, Vec<Result<Vec<u64>, String>>);
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        let w = World::with_data(&net, wseed, 5, rows);
        clients(nc + nf, |c| -> Out {
            if c >= nc {
                let mut r = Mix(e.p("opseed") as u64 ^ c as u64);
                let f = (0..2)
                    .map(|_| {
                        let kind = r.below(4);
                        failing(&w, kind, r.below(e.p("failat") as u64 + 1), r.next())
                    })
                    .collect();
                (vec![], f)
            } else {
                let mut v: Vec<Vec<u64>> = vec![];
                for round in 0..hammer {
                    for k in 0..no {
                        let (kind, a) = pick_op(e.spec, c as u64, k as u64);
                        let x = w.op(kind, a);
                        // the first result, or the first that differs from it
                        if round == 0 {
                            v.push(x);
                        } else if x != v[k] {
                            if x != base[c * no + k] {
                                v[k] = x;
                            }
                        }
                    }
                }
                (v, vec![])
            }
        })
    })?;
    for (c, (out, fs)) in all_ok(res)?.into_iter().enumerate() {
        for f in fs {
            match f {
                Ok(_) => e.count("failing_calls_that_needed_fewer_callbacks", 1.0),
                Err(m) => {
                    check!(m.starts_with(PLANNED), "panic", "thread {}: {}", c, m);
                    e.count("failed_calls_of_other_threads", 1.0);
                }
            }
        }
        for (k, v) in out.into_iter().enumerate() {
            let (kind, a) = pick_op(e.spec, c as u64, k as u64);
            let b = &base[c * no + k];
            for x in &v {
                simos::note(*x);
            }
            if v != *b {
                let i = (0..v.len().max(b.len())).find(|&i| v.get(i) != b.get(i)).unwrap();
                return fail(
                    "differs",
                    format!(
                        "{} with argument {} on thread {} differs from the call alone: word {} is {:?} instead of {:?}",
                        OP_NAMES[kind as usize],
                        a,
                        c,
                        i,
                        v.get(i).map(|x| f64::from_bits(*x)),
                        b.get(i).map(|x| f64::from_bits(*x))
                    ),
                );
            }
            e.count("results_compared", 1.0);
        }
    }
    Ok(())
}
