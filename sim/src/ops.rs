//! A world of shared objects and the deterministic operations of the library on it.
use crate::glue::*;
use model::net::{Mix, Net};
use reCTBN::parameter_learning::{sufficient_statistics, BayesianApproach, ParameterLearning, MLE};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, NeighborhoodRelativeReward, RewardCriteria};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::RewardEvaluation;
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::structure_learning::constraint_based_algorithm::{Cache, CTPC};
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, HypothesisTest, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;
use std::collections::BTreeSet;

pub struct World {
    pub net: Net,
    pub g: CtbnNetwork,
    pub rw: Rw,
    pub f: FactoredRewardFunction,
    pub data: Dataset,
    mc: MonteCarloReward,
    mc_inf: MonteCarloReward,
    nrr: NeighborhoodRelativeReward<MonteCarloReward>,
    hc_ll: HillClimbing<LogLikelihood>,
    hc_bic: HillClimbing<BIC>,
    pc_mle: CTPC<crate::learn::Dense<MLE>>,
    pc_bayes: CTPC<crate::learn::Dense<BayesianApproach>>,
    mle: MLE,
    bayes: BayesianApproach,
    ll: LogLikelihood,
    bic: BIC,
    f_test: F,
    chi: ChiSquare,
}
pub const N_OPS: i64 = 15;
pub const OP_NAMES: [&str; N_OPS as usize] = [
    "sampler",
    "sampler with initial state",
    "trajectory_generator",
    "generate_graph",
    "generate_parameters",
    "evaluate_state",
    "evaluate_state_space",
    "neighbourhood reward",
    "hill climbing",
    "ctpc",
    "parameter fit",
    "amalgamation and its sampling",
    "sufficient_statistics",
    "score",
    "hypothesis test",
];
/// operations that take microseconds
pub const SHORT_OPS: [i64; 6] = [5, 10, 12, 13, 14, 1];

pub fn events(s: impl Iterator<Item = reCTBN::sampling::Sample>, n: usize) -> Vec<u64> {
    let mut v = vec![];
    for x in s.take(n) {
        v.push(x.t.to_bits());
        v.push(un(&x.state).iter().fold(0, |a, b| a * 8 + *b as u64));
    }
    v
}
pub fn space_bits(net: &Net, m: std::collections::HashMap<reCTBN::process::NetworkProcessState, f64>) -> Vec<u64> {
    let mut v: Vec<(usize, u64)> = m.iter().map(|(s, x)| (net.idx(&un(s)), nan(*x))).collect();
    v.sort();
    v.into_iter().flat_map(|(a, b)| [a as u64, b]).collect()
}

impl World {
    pub fn new(net: &Net, seed: u64) -> World {
        World::with_data(net, seed, 5, 30)
    }
    pub fn with_data(net: &Net, seed: u64, trajectories: usize, max_rows: usize) -> World {
        let net = net.clone();
        let g = build(&net);
        let rw = Rw::gen(&net.card, (seed % 6) as i64, seed);
        let f = rw.factored(&g);
        let lam = (net.max_exit()).max(0.1);
        let data = dataset(&model::law::simulate(&net, seed, trajectories, 4.0 * max_rows as f64 / lam, max_rows));
        let end = 6.0 / lam;
        let mc = |inf: bool, n: usize, s: u64| {
            MonteCarloReward::new(
                n,
                0.5,
                0.1,
                end,
                if inf { RewardCriteria::InfiniteHorizon { discount_factor: 0.7 } } else { RewardCriteria::FiniteHorizon },
                Some(s),
            )
        };
        World {
            mc: mc(false, 6, seed),
            mc_inf: mc(true, 5, seed ^ 1),
            nrr: NeighborhoodRelativeReward::new(mc(false, 2, seed ^ 2)),
            hc_ll: HillClimbing::new(LogLikelihood::new(1, 1.0), Some(2)),
            hc_bic: HillClimbing::new(BIC::new(1, 1.0), None),
            pc_mle: CTPC::new(crate::learn::Dense(MLE {}), F::new(0.05), ChiSquare::new(0.05)),
            pc_bayes: CTPC::new(crate::learn::Dense(BayesianApproach { alpha: 1, tau: 0.5 }), F::new(0.01), ChiSquare::new(0.1)),
            mle: MLE {},
            bayes: BayesianApproach { alpha: 2, tau: 1.5 },
            ll: LogLikelihood::new(2, 0.5),
            bic: BIC::new(1, 2.0),
            f_test: F::new(0.05),
            chi: ChiSquare::new(0.05),
            net,
            g,
            rw,
            f,
            data,
        }
    }
    /// a network of the same shape without parameters, with edges that learning must forget
    pub fn empty(&self, a: u64) -> CtbnNetwork {
        let mut g = CtbnNetwork::new();
        for (i, &c) in self.net.card.iter().enumerate() {
            g.add_node(param(&format!("n{}", i), c)).unwrap();
        }
        g.initialize_adj_matrix();
        let mut r = Mix(a ^ 0xed6e);
        for p in 0..self.net.n() {
            for c in 0..self.net.n() {
                if p != c && r.below(3) == 0 {
                    g.add_edge(p, c);
                }
            }
        }
        g
    }
    pub fn set(&self, node: usize, a: u64) -> BTreeSet<usize> {
        let mut r = Mix(a ^ 0x5e7);
        if a % 7 == 3 {
            // as large a set as there is
            return (0..self.net.n()).filter(|&p| p != node).take(5).collect();
        }
        (0..self.net.n()).filter(|&p| p != node && r.below(2) == 0).take(3).collect()
    }
    /// every operation is a function of its arguments alone
    pub fn op(&self, kind: i64, a: u64) -> Vec<u64> {
        let n = self.net.n();
        let joint = self.net.joint();
        let start = st(&self.net.state(a as usize % joint));
        match kind {
            0 => {
                let mut s = ForwardSampler::new(&self.g, Some(a), None);
                let mut v = events(&mut s, 25);
                s.reset();
                v.extend(events(&mut s, 10));
                v
            }
            1 => {
                let mut s = ForwardSampler::new(&self.g, Some(a), Some(start));
                let mut v = events(&mut s, 25);
                s.reset();
                v.extend(events(&mut s, 10));
                v
            }
            2 => dataset_bits(&trajectory_generator(
                &self.g,
                1 + a % 4,
                (1 + a % 9) as f64 / self.net.max_exit().max(0.1),
                Some(a),
            )),
            3 => {
                let mut gen: UniformGraphGenerator = RandomGraphGenerator::new([0.3, 0.5, 0.8][a as usize % 3], Some(a));
                let mut g = self.empty(a);
                gen.generate_graph(&mut g);
                let mut v = graph_bits(&g);
                gen.generate_graph(&mut g);
                v.extend(graph_bits(&g));
                v
            }
            4 => {
                let mut gen: UniformParametersGenerator = RandomParametersGenerator::new(1.0..4.0, Some(a));
                let mut g = build_structure(&self.net);
                let mut v = vec![];
                for _ in 0..2 {
                    gen.generate_parameters(&mut g);
                    for i in 0..n {
                        v.extend(params_bits(g.get_node(i)));
                    }
                }
                v
            }
            5 => {
                let m = if a % 2 == 0 { &self.mc } else { &self.mc_inf };
                vec![nan(m.evaluate_state(&self.g, &self.f, &start))]
            }
            6 => {
                let m = if a % 2 == 0 { &self.mc } else { &self.mc_inf };
                space_bits(&self.net, m.evaluate_state_space(&self.g, &self.f))
            }
            7 => space_bits(&self.net, self.nrr.evaluate_state_space(&self.g, &self.f)),
            8 => {
                let g = self.empty(a);
                graph_bits(&if a % 2 == 0 {
                    self.hc_ll.fit_transform(g, &self.data)
                } else {
                    self.hc_bic.fit_transform(g, &self.data)
                })
            }
            9 => {
                let g = self.empty(a);
                graph_bits(&if a % 2 == 0 {
                    self.pc_mle.fit_transform(g, &self.data)
                } else {
                    self.pc_bayes.fit_transform(g, &self.data)
                })
            }
            10 => {
                let i = a as usize % n;
                let p = if a % 3 == 0 { None } else { Some(self.set(i, a)) };
                params_bits(&if a % 2 == 0 {
                    self.mle.fit(&self.g, &self.data, i, p)
                } else {
                    self.bayes.fit(&self.g, &self.data, i, p)
                })
            }
            11 => {
                if joint > 40 {
                    return vec![];
                }
                let c = self.g.amalgamation();
                let mut v = params_bits(c.get_node(0));
                v.extend(events(ForwardSampler::new(&c, Some(a), None), 15));
                v
            }
            13 => {
                let i = a as usize % n;
                let p = self.set(i, a);
                vec![if a % 2 == 0 {
                    self.ll.call(&self.g, i, &p, &self.data)
                } else {
                    self.bic.call(&self.g, i, &p, &self.data)
                }
                .to_bits()]
            }
            14 => {
                if n < 2 {
                    return vec![];
                }
                let i = a as usize % n;
                let j = (i + 1 + (a >> 8) as usize % (n - 1)) % n;
                let mut sep = self.set(i, a);
                sep.remove(&j);
                let dense = crate::learn::Dense(BayesianApproach { alpha: 1, tau: 0.5 });
                let mut cache = Cache::new(&dense);
                (0..2)
                    .map(|_| {
                        if a % 2 == 0 {
                            self.f_test.call(&self.g, i, j, &sep, &self.data, &mut cache) as u64
                        } else {
                            self.chi.call(&self.g, i, j, &sep, &self.data, &mut cache) as u64
                        }
                    })
                    .collect()
            }
            _ => {
                let i = a as usize % n;
                let (m, t) = sufficient_statistics(&self.g, &self.data, i, &self.set(i, a));
                m.iter().map(|x| *x as u64).chain(t.iter().map(|x| x.to_bits())).collect()
            }
        }
    }
}

/// Use the whole library on another network of the same shape, then forget it: whatever is left behind in the process
/// must not matter.
pub fn warm_up(spec: &crate::spec::Spec, what: i64) {
    if what == 0 {
        return;
    }
    let (mut card, mut parents) = shape_of(spec);
    // the learners may visit any set of parents
    if card.iter().map(|c| *c as f64).product::<f64>() > 5000.0 {
        card.iter_mut().for_each(|c| *c = (*c).min(2));
    }
    trim(&card, &mut parents, 60_000);
    let net = Net::with_parents(&card, parents, 1, spec.get("rates") as u64 ^ 0x77a1 ^ what as u64);
    let w = World::with_data(&net, what as u64, 3, 12);
    for k in 0..N_OPS {
        if (what >> k) & 1 == 1 && (k != 6 && k != 7 || net.joint() <= 64) {
            w.op(k, what as u64 ^ k as u64);
        }
    }
}
pub fn gen_warm(s: &mut crate::spec::Spec, r: &mut simos::Rng) {
    let w = if r.below(2) == 0 { 0 } else { r.range(1, (1 << N_OPS) - 1) & r.range(0, (1 << N_OPS) - 1) };
    s.set("warm", w);
}
