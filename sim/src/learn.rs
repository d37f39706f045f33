//! Reference definitions for parameter and structure learning, and synthetic scores and learners.
use crate::glue::*;
use model::net::Mix;
use model::stat::*;
use reCTBN::parameter_learning::ParameterLearning;
use reCTBN::params::{Params, StateType};
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::score_function::ScoreFunction;
use reCTBN::tools::Dataset;
use simos::mix2;
use std::collections::BTreeSet;

/// a set of variables, at most 128 of them
pub type Mask = u128;
pub fn mask(s: impl IntoIterator<Item = usize>) -> Mask {
    s.into_iter().fold(0, |a, p| a | 1 << p)
}
pub fn members(mut m: Mask) -> Vec<usize> {
    let mut v = vec![];
    while m != 0 {
        v.push(m.trailing_zeros() as usize);
        m &= m - 1;
    }
    v
}
/// a number for a set; sets of variables below 64 stand for themselves
pub fn key(m: Mask) -> u64 {
    m as u64 ^ ((m >> 64) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)
}
pub fn halves(v: Vec<Mask>) -> Vec<u64> {
    v.into_iter().flat_map(|m| [m as u64, (m >> 64) as u64]).collect()
}
pub fn join(v: &[u64]) -> Vec<Mask> {
    v.chunks(2).map(|x| x[0] as Mask | (x[1] as Mask) << 64).collect()
}
/// all subsets with k elements
pub fn subsets(v: &[usize], k: usize, f: &mut dyn FnMut(Mask)) {
    fn go(v: &[usize], k: usize, m: Mask, f: &mut dyn FnMut(Mask)) {
        if k == 0 {
            return f(m);
        }
        for i in 0..=v.len().saturating_sub(k) {
            if i < v.len() {
                go(&v[i + 1..], k - 1, m | 1 << v[i], f);
            }
        }
    }
    if k <= v.len() {
        go(v, k, 0, f)
    }
}
pub fn parent_masks<T: NetworkProcess>(g: &T) -> Vec<Mask> {
    g.get_node_indices().map(|i| mask(g.get_parent_set(i))).collect()
}
/// the variables (label, domain size) are those of `card`
pub fn same_nodes<T: NetworkProcess>(g: &T, card: &[usize]) -> bool {
    use reCTBN::params::ParamsTrait;
    g.get_number_of_nodes() == card.len()
        && g.get_node_indices().all(|i| {
            g.get_node(i).get_reserved_space_as_parent() == card[i] && *g.get_node(i).get_label() == format!("n{}", i)
        })
}

/// block index of a joint state: given parents ascending, the lowest one varies fastest
pub fn block(card: &[usize], set: &[usize], s: &[usize]) -> usize {
    let mut m = 1;
    let mut r = 0;
    for &p in set {
        r += s[p] * m;
        m *= card[p];
    }
    r
}
pub fn blocks(card: &[usize], set: &[usize]) -> usize {
    set.iter().map(|&p| card[p]).product()
}
/// values of the members of `set` in block b
pub fn values(card: &[usize], set: &[usize], mut b: usize) -> Vec<usize> {
    set.iter()
        .map(|&p| {
            let x = b % card[p];
            b /= card[p];
            x
        })
        .collect()
}
/// transition counts and (compensated) residence times visible in recorded rows
pub fn statistics(card: &[usize], data: &[Rows], node: usize, set: &[usize]) -> (Vec<Vec<Vec<usize>>>, Vec<Vec<f64>>) {
    let (nb, c) = (blocks(card, set), card[node]);
    let mut m = vec![vec![vec![0; c]; c]; nb];
    let mut t = vec![vec![0.0; c]; nb];
    let mut e = vec![vec![0.0; c]; nb];
    for tr in data {
        for w in tr.windows(2) {
            let b = block(card, set, &w[0].1);
            let (x, y) = (w[0].1[node], w[1].1[node]);
            if x != y {
                m[b][x][y] += 1;
            }
            let d = (w[1].0 - w[0].0) - e[b][x];
            let s: f64 = t[b][x] + d;
            e[b][x] = (s - t[b][x]) - d;
            t[b][x] = s;
        }
    }
    (m, t)
}
#[derive(Clone, Debug)]
pub struct Stat {
    pub m: Vec<Vec<Vec<usize>>>,
    /// exit rates
    pub q: Vec<Vec<f64>>,
}
#[derive(Clone, Copy, Debug)]
pub enum Prior {
    Mle,
    Bayes { alpha: usize, tau: f64 },
}
/// learned intensities (off-diagonal) and exit rates
pub fn intensity(p: Prior, nb: usize, m: usize, t: f64) -> f64 {
    match p {
        Prior::Mle => m as f64 / t,
        Prior::Bayes { alpha, tau } => (m as f64 + alpha as f64 / nb as f64) / (t + tau / nb as f64),
    }
}
pub fn real_stat(card: &[usize], data: &[Rows], p: Prior, node: usize, set: &[usize]) -> Stat {
    let (m, t) = statistics(card, data, node, set);
    let nb = m.len();
    let q = (0..nb)
        .map(|b| {
            (0..card[node])
                .map(|x| (0..card[node]).filter(|&y| y != x).map(|y| intensity(p, nb, m[b][x][y], t[b][x])).sum())
                .collect()
        })
        .collect();
    Stat { m, q }
}

/// Outcome of a comparison with the distance of the decision from its threshold, relative to the tail beyond it.
pub struct Verdict {
    pub same: bool,
    pub margin: f64,
    /// a row without transitions was compared
    pub empty: bool,
}
/// The tests as defined, or with the open findings of the library (see known_findings.txt).
#[derive(Clone, Copy, PartialEq)]
pub enum Tests {
    Sound,
    /// chi-square: a transition never observed in either matrix (0/0) counts as dependence
    Quirky,
}
/// is a state left at the same rate?
fn f_rows(a: &Stat, i: usize, b: &Stat, j: usize, alpha: f64, v: &mut Verdict) {
    for x in 0..a.q[i].len() {
        let (r1, r2) = (a.m[i][x].iter().sum::<usize>() as f64, b.m[j][x].iter().sum::<usize>() as f64);
        if r1 == 0.0 || r2 == 0.0 {
            v.empty = true;
            continue;
        }
        let p = f_cdf(r1, r2, b.q[j][x] / a.q[i][x]);
        for lim in [alpha / 2.0, 1.0 - alpha / 2.0] {
            v.margin = v.margin.min((p - lim).abs() / lim.min(1.0 - lim));
        }
        if p < alpha / 2.0 || p > 1.0 - alpha / 2.0 {
            v.same = false;
        }
    }
}
/// is a state left towards the same successors?
fn chi_rows(a: &Stat, i: usize, b: &Stat, j: usize, alpha: f64, tests: Tests, v: &mut Verdict) {
    let c = a.q[i].len();
    for x in 0..c {
        let (r1, r2) = (a.m[i][x].iter().sum::<usize>() as f64, b.m[j][x].iter().sum::<usize>() as f64);
        if tests == Tests::Quirky && (0..c).any(|y| y != x && a.m[i][x][y] + b.m[j][x][y] == 0) {
            v.same = false;
            continue;
        }
        if r1 == 0.0 || r2 == 0.0 {
            if tests == Tests::Quirky {
                v.same = false;
            }
            continue;
        }
        let k = (r1 / r2).sqrt();
        let mut s = 0.0;
        for y in 0..c {
            let (m1, m2) = (a.m[i][x][y] as f64, b.m[j][x][y] as f64);
            if y != x && m1 + m2 > 0.0 {
                s += (k * m2 - m1 / k).powi(2) / (m1 + m2);
            }
        }
        let p = chi2_cdf((c - 1) as f64, s);
        v.margin = v.margin.min((p - (1.0 - alpha)).abs() / alpha.min(1.0 - alpha));
        if !(p < 1.0 - alpha) {
            v.same = false;
        }
    }
}
/// Is `parent` irrelevant for `node` given `sep`, according to (F test, chi-square test)?
pub fn irrelevant(
    card: &[usize],
    stat: &mut dyn FnMut(usize, Mask) -> std::rc::Rc<Stat>,
    node: usize,
    parent: usize,
    sep: Mask,
    af: f64,
    ax: f64,
    tests: Tests,
) -> (Verdict, Verdict) {
    let small = stat(node, sep);
    let big = stat(node, sep | 1 << parent);
    let (ss, bs) = (members(sep), members(sep | 1 << parent));
    let mut f = Verdict { same: true, margin: 1.0, empty: false };
    let mut x = Verdict { same: true, margin: 1.0, empty: false };
    for j in 0..big.q.len() {
        let vals = values(card, &bs, j);
        let mut state = vec![0; card.len()];
        for (p, v) in bs.iter().zip(vals) {
            state[*p] = v;
        }
        let i = block(card, &ss, &state);
        f_rows(&small, i, &big, j, af, &mut f);
        chi_rows(&small, i, &big, j, ax, tests, &mut x);
    }
    (f, x)
}
pub struct Survivors {
    pub set: Mask,
    /// smallest margin of a decision
    pub margin: f64,
    pub tests: u64,
    /// rows without transitions may be compared
    pub empty: bool,
}
/// Level-wise elimination.
pub fn pc(
    card: &[usize],
    stat: &mut dyn FnMut(usize, Mask) -> std::rc::Rc<Stat>,
    node: usize,
    af: f64,
    ax: f64,
    tests: Tests,
) -> Survivors {
    let mut cand: Mask = mask((0..card.len()).filter(|&p| p != node));
    let mut margin: f64 = 1.0;
    let mut n_tests = 0;
    let mut empty = false;
    let mut k = 0;
    while k < cand.count_ones() {
        let mut left = cand;
        for p in members(cand) {
            let others = members(cand & !(1 << p));
            // all subsets of size k; the decision does not depend on their order
            subsets(&others, k as usize, &mut |sep| {
                // the quirky reference looks at everything the library may look at
                if tests == Tests::Sound && left >> p & 1 == 0 {
                    return;
                }
                let (f, x) = irrelevant(card, stat, node, p, sep, af, ax, tests);
                n_tests += 1;
                empty |= f.empty;
                margin = margin.min(f.margin).min(x.margin);
                if f.same && x.same {
                    left &= !(1 << p);
                }
            });
        }
        cand = left;
        k += 1;
    }
    Survivors { set: cand, margin, tests: n_tests, empty }
}

// ------------------------------------------------------------------------------------------------ synthetic learner
/// Parameters of a fictitious dataset: what is learned for (node, parent set) is a fixed function of a seed.  Rates and
/// successors depend on the true parents contained in the set, plus irregularities in single blocks.
#[derive(Clone)]
pub struct SynLearner {
    pub card: Vec<usize>,
    pub truth: Vec<Mask>,
    pub seed: u64,
    /// probabilities (per thousand) of irregular rates, irregular successors, and unobserved rows
    pub pf: u64,
    pub px: u64,
    pub pz: u64,
}
impl SynLearner {
    pub fn new(card: &[usize], seed: u64) -> SynLearner {
        let mut r = Mix(seed ^ 0x517);
        let n = card.len();
        let dens = r.below(4);
        let crowd = n > 20;
        let truth = (0..n)
            .map(|i| {
                if crowd {
                    return mask((0..dens).map(|_| r.below(n as u64) as usize).filter(|&p| p != i).collect::<Vec<_>>());
                }
                mask((0..n).filter(|&p| p != i && r.below(5) < dens).take(3).collect::<Vec<_>>())
            })
            .collect();
        SynLearner {
            card: card.to_vec(),
            truth,
            seed,
            pf: [0, 60, 250][r.below(3) as usize] / if crowd { 30 } else { 1 },
            px: [0, 60, 250][r.below(3) as usize] / if crowd { 30 } else { 1 },
            pz: if crowd { 0 } else { [0, 30, 200][r.below(3) as usize] },
        }
    }
    pub fn stat(&self, node: usize, set: Mask) -> Stat {
        let c = self.card[node];
        let v = members(set);
        let set = key(set);
        let nb = blocks(&self.card, &v);
        let h = |a: u64, b: u64, d: u64| mix2(mix2(mix2(self.seed, a), (node as u64) << 40 | b), d);
        let calm = self.card.len() > 20 && set == 0;
        let odd_f = !calm && h(1, set, 0) % 1000 < self.pf;
        let odd_x = !calm && h(2, set, 0) % 1000 < self.px;
        let (bf, rf) = (h(3, set, 0) as usize % nb, h(3, set, 1) as usize % c);
        let (bx, rx) = (h(4, set, 0) as usize % nb, h(4, set, 1) as usize % c);
        let mut m = vec![];
        let mut q = vec![];
        for b in 0..nb {
            let vals = values(&self.card, &v, b);
            let key = v
                .iter()
                .zip(&vals)
                .filter(|(p, _)| self.truth[node] >> **p & 1 == 1)
                .fold(0u64, |a, (p, x)| mix2(a, (*p as u64) << 8 | *x as u64));
            let mut mb = vec![vec![0; c]; c];
            let mut qb = vec![0.0; c];
            for x in 0..c {
                if h(5, set, (b * 8 + x) as u64) % 1000 < self.pz {
                    continue;
                }
                let k = h(6, key, x as u64);
                let mut rate = [1.0, 7.0, 0.2][k as usize % 3];
                let mut tilt = (k >> 20) as usize % (c - 1);
                if odd_f && b == bf && x == rf {
                    rate *= 45.0;
                }
                if odd_x && b == bx && x == rx {
                    tilt = (tilt + 1) % (c - 1);
                }
                let total = 300 + (h(7, set, (b * 8 + x) as u64) % 500) as usize;
                for (j, y) in (0..c).filter(|&y| y != x).enumerate() {
                    // one successor is four times as frequent as the others
                    let w = if j == tilt { 4.0 } else { 1.0 } / (c + 2) as f64;
                    mb[x][y] = (total as f64 * w).round() as usize;
                }
                qb[x] = rate;
            }
            m.push(mb);
            q.push(qb);
        }
        Stat { m, q }
    }
}
impl ParameterLearning for SynLearner {
    fn fit<T: NetworkProcess>(&self, net: &T, _: &Dataset, node: usize, set: Option<BTreeSet<usize>>) -> Params {
        cb("parameter learner");
        let set = mask(set.unwrap_or_else(|| net.get_parent_set(node)));
        let s = self.stat(node, set);
        let (nb, c) = (s.q.len(), self.card[node]);
        let r = |b: usize, x: usize| s.m[b][x].iter().sum::<usize>() as f64;
        let mut p = net.get_node(node).clone();
        match p {
            Params::DiscreteStatesContinousTime(ref mut d) => {
                d.set_cim_unchecked(ndarray::Array3::from_shape_fn((nb, c, c), |(b, x, y)| {
                    if x == y {
                        -s.q[b][x]
                    } else if r(b, x) > 0.0 {
                        s.q[b][x] * s.m[b][x][y] as f64 / r(b, x)
                    } else {
                        0.0
                    }
                }));
                d.set_transitions(ndarray::Array3::from_shape_fn((nb, c, c), |(b, x, y)| s.m[b][x][y]));
                d.set_residence_time(ndarray::Array2::from_shape_fn((nb, c), |(b, x)| {
                    if r(b, x) > 0.0 {
                        r(b, x) / s.q[b][x]
                    } else {
                        1.0
                    }
                }));
            }
        }
        p
    }
}

/// A user's learner: every transition is counted once more than it was observed, so that no state is without transitions.
pub struct Dense<P>(pub P);
impl<P: ParameterLearning> ParameterLearning for Dense<P> {
    fn fit<T: NetworkProcess>(&self, net: &T, d: &Dataset, node: usize, set: Option<BTreeSet<usize>>) -> Params {
        let mut p = self.0.fit(net, d, node, set);
        match p {
            Params::DiscreteStatesContinousTime(ref mut d) => {
                let t = d.get_residence_time().clone().unwrap().mapv(dense_t);
                let mut m = d.get_transitions().clone().unwrap();
                for ((_, x, y), v) in m.indexed_iter_mut() {
                    *v += (x != y) as usize;
                }
                let cim = ndarray::Array3::from_shape_fn(m.dim(), |(b, x, y)| {
                    if x == y {
                        -(m.slice(ndarray::s![b, x, ..]).sum() as f64) / t[[b, x]]
                    } else {
                        m[[b, x, y]] as f64 / t[[b, x]]
                    }
                });
                d.set_cim_unchecked(cim);
                d.set_transitions(m);
                d.set_residence_time(t);
            }
        }
        p
    }
}
fn dense_t(t: f64) -> f64 {
    t + 0.25
}
pub fn dense_stat(card: &[usize], data: &[Rows], node: usize, set: &[usize]) -> Stat {
    let (mut m, t) = statistics(card, data, node, set);
    for b in m.iter_mut() {
        for (x, r) in b.iter_mut().enumerate() {
            r.iter_mut().enumerate().for_each(|(y, v)| *v += (x != y) as usize);
        }
    }
    let q = m
        .iter()
        .zip(&t)
        .map(|(mb, tb)| mb.iter().zip(tb).map(|(r, t)| r.iter().sum::<usize>() as f64 / dense_t(*t)).collect())
        .collect();
    Stat { m, q }
}

/// A real learner whose fits are simulator callback points, on entry and on exit.
pub struct HLearner<P>(pub P);
impl<P: ParameterLearning> ParameterLearning for HLearner<P> {
    fn fit<T: NetworkProcess>(&self, net: &T, d: &Dataset, node: usize, set: Option<BTreeSet<usize>>) -> Params {
        cb("parameter learner");
        let r = self.0.fit(net, d, node, set);
        cb("parameter learner");
        r
    }
}
/// A score whose evaluations are simulator callback points, on entry and on exit.
pub struct HScore<S>(pub S);
impl<S: ScoreFunction> ScoreFunction for HScore<S> {
    fn call<T: NetworkProcess>(&self, net: &T, node: usize, set: &BTreeSet<usize>, d: &Dataset) -> f64 {
        cb("score function");
        let r = self.0.call(net, node, set, d);
        cb("score function");
        r
    }
}

// ------------------------------------------------------------------------------------------------ synthetic score
#[derive(Clone, Debug)]
pub struct SynScore {
    pub style: i64,
    pub seed: u64,
}
impl SynScore {
    pub const STYLES: i64 = 7;
    pub fn value(&self, node: usize, set: Mask) -> f64 {
        let h = |a: u64, b: u64| (mix2(mix2(self.seed ^ node as u64, a), b) >> 11) as f64 / (1u64 << 53) as f64;
        let noise = h(1, key(set)) - 0.5;
        let add = |spread: f64| members(set).iter().map(|&p| spread * (h(2, p as u64) - 0.5)).sum::<f64>();
        let size = set.count_ones() as f64;
        match self.style {
            // an arbitrary landscape
            0 => noise,
            1 => add(1.0) + 0.01 * noise,
            2 => add(4.0) + 1.5 * noise - 0.3 * size,
            // the size of log-likelihoods
            3 => -1.0e6 + 3.0e3 * noise + 1e3 * size,
            // differences far below the magnitude
            4 => -1.0 + 1e-6 * noise,
            // only pairs help
            5 => {
                let odd = if (size as u64) % 2 == 1 { -1.0 } else { 0.4 * size };
                odd + 0.3 * noise
            }
            // the more the better
            _ => size + 0.2 * noise,
        }
    }
}
impl ScoreFunction for SynScore {
    fn call<T: NetworkProcess>(&self, _: &T, node: usize, set: &BTreeSet<usize>, _: &Dataset) -> f64 {
        cb("score function");
        self.value(node, mask(set.iter().copied()))
    }
}
#[allow(dead_code)]
pub fn discrete(x: &StateType) -> usize {
    match x {
        StateType::Discrete(x) => *x,
    }
}

/// empty network with the given variables and arbitrary edges
pub fn scratch(card: &[usize], seed: u64, edges: bool) -> reCTBN::process::ctbn::CtbnNetwork {
    let mut g = reCTBN::process::ctbn::CtbnNetwork::new();
    for (i, &c) in card.iter().enumerate() {
        g.add_node(param(&format!("n{}", i), c)).unwrap();
    }
    g.initialize_adj_matrix();
    if edges {
        let mut r = Mix(seed ^ 0xed6e5);
        let d = r.below(6);
        for p in 0..card.len() {
            for c in 0..card.len() {
                if p != c && r.below(5) < d {
                    g.add_edge(p, c);
                }
            }
        }
    }
    g
}
