//! Bridges between the reference model and the library under test, and harness implementations of its user traits.
use model::net::Net;
use ndarray::{Array1, Array2, Array3};
use reCTBN::params::{DiscreteStatesContinousTimeParams, Params, ParamsTrait, StateType};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::{NetworkError, NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{Reward, RewardFunction};
use reCTBN::tools::{Dataset, Trajectory};
use std::collections::BTreeSet;

pub fn param(label: &str, card: usize) -> Params {
    let dom: BTreeSet<String> = (0..card).map(|x| format!("s{:02}", x)).collect();
    Params::DiscreteStatesContinousTime(DiscreteStatesContinousTimeParams::new(label.to_string(), dom))
}
pub fn cim_array(b: &[Vec<Vec<f64>>]) -> Array3<f64> {
    let c = b[0].len();
    Array3::from_shape_fn((b.len(), c, c), |(u, x, y)| b[u][x][y])
}
pub fn set_cim(p: &mut Params, a: Array3<f64>) {
    match p {
        Params::DiscreteStatesContinousTime(p) => p.set_cim(a).expect("harness: the library rejected a valid cim"),
    }
}
pub fn get_cim(p: &Params) -> Option<Vec<Vec<Vec<f64>>>> {
    match p {
        Params::DiscreteStatesContinousTime(p) => p.get_cim().as_ref().map(|a| {
            a.outer_iter().map(|m| m.outer_iter().map(|r| r.to_vec()).collect()).collect()
        }),
    }
}
/// nodes and edges only
pub fn build_structure(net: &Net) -> CtbnNetwork {
    let mut g = CtbnNetwork::new();
    for (i, &c) in net.card.iter().enumerate() {
        g.add_node(param(&format!("n{}", i), c)).unwrap();
    }
    g.initialize_adj_matrix();
    for (c, ps) in net.parents.iter().enumerate() {
        for &p in ps {
            g.add_edge(p, c);
        }
    }
    g
}
pub fn build(net: &Net) -> CtbnNetwork {
    let mut g = build_structure(net);
    for i in 0..net.n() {
        set_cim(g.get_node_mut(i), cim_array(&net.cim[i]));
    }
    g
}
pub fn st(s: &[usize]) -> NetworkProcessState {
    s.iter().map(|&x| StateType::Discrete(x)).collect()
}
pub fn un(s: &NetworkProcessState) -> Vec<usize> {
    s.iter()
        .map(|x| match x {
            StateType::Discrete(x) => *x,
        })
        .collect()
}
pub fn traj(rows: &[(f64, Vec<usize>)]) -> Trajectory {
    let n = rows[0].1.len();
    Trajectory::new(
        Array1::from_iter(rows.iter().map(|r| r.0)),
        Array2::from_shape_fn((rows.len(), n), |(i, j)| rows[i].1[j]),
    )
}
pub type Rows = Vec<(f64, Vec<usize>)>;
pub fn rows(t: &Trajectory) -> Rows {
    t.get_time().iter().copied().zip(t.get_events().outer_iter().map(|r| r.to_vec())).collect()
}
pub fn dataset(ts: &[Rows]) -> Dataset {
    Dataset::new(ts.iter().map(|t| traj(t)).collect())
}
/// bits of everything in a dataset
pub fn dataset_bits(d: &Dataset) -> Vec<u64> {
    let mut v = vec![d.get_trajectories().len() as u64];
    for t in d.get_trajectories() {
        v.push(t.get_time().len() as u64);
        v.extend(t.get_time().iter().map(|x| x.to_bits()));
        v.extend(t.get_events().iter().map(|x| *x as u64));
    }
    v
}
pub fn graph_bits<T: NetworkProcess>(g: &T) -> Vec<u64> {
    let mut v = vec![g.get_number_of_nodes() as u64];
    for i in g.get_node_indices() {
        v.push(g.get_node(i).get_reserved_space_as_parent() as u64);
        v.push(g.get_parent_set(i).iter().fold(0u64, |a, &p| if p < 64 { a | 1 << p } else { simos::mix2(a, p as u64) }));
    }
    v
}
pub fn params_bits(p: &Params) -> Vec<u64> {
    match p {
        Params::DiscreteStatesContinousTime(p) => {
            let mut v = vec![];
            match p.get_cim() {
                Some(a) => {
                    v.extend(a.shape().iter().map(|x| *x as u64));
                    v.extend(a.iter().map(|x| nan(*x)))
                }
                None => v.push(u64::MAX),
            }
            match p.get_transitions() {
                Some(a) => {
                    v.extend(a.shape().iter().map(|x| *x as u64));
                    v.extend(a.iter().map(|x| *x as u64))
                }
                None => v.push(u64::MAX),
            }
            match p.get_residence_time() {
                Some(a) => {
                    v.extend(a.shape().iter().map(|x| *x as u64));
                    v.extend(a.iter().map(|x| nan(*x)))
                }
                None => v.push(u64::MAX),
            }
            v
        }
    }
}
/// all NaNs are the same value
pub fn nan(x: f64) -> u64 {
    if x.is_nan() {
        f64::NAN.to_bits()
    } else {
        x.to_bits()
    }
}

/// A network process whose every method is a simulator callback point (and may be made to panic there).
pub struct HNet {
    pub g: CtbnNetwork,
    pub armed: bool,
}
pub fn cb(what: &str) {
    if simos::callback_point() {
        panic!("planned failure in {}", what);
    }
}
impl NetworkProcess for HNet {
    fn initialize_adj_matrix(&mut self) {
        self.g.initialize_adj_matrix()
    }
    fn add_node(&mut self, n: Params) -> Result<usize, NetworkError> {
        self.g.add_node(n)
    }
    fn add_edge(&mut self, parent: usize, child: usize) {
        self.g.add_edge(parent, child)
    }
    fn get_node_indices(&self) -> std::ops::Range<usize> {
        self.g.get_node_indices()
    }
    fn get_number_of_nodes(&self) -> usize {
        self.g.get_number_of_nodes()
    }
    fn get_node(&self, node_idx: usize) -> &Params {
        if self.armed {
            cb("get_node")
        }
        self.g.get_node(node_idx)
    }
    fn get_node_mut(&mut self, node_idx: usize) -> &mut Params {
        self.g.get_node_mut(node_idx)
    }
    fn get_param_index_network(&self, node: usize, s: &NetworkProcessState) -> usize {
        if self.armed {
            cb("get_param_index_network")
        }
        self.g.get_param_index_network(node, s)
    }
    fn get_param_index_from_custom_parent_set(&self, s: &Vec<StateType>, p: &BTreeSet<usize>) -> usize {
        self.g.get_param_index_from_custom_parent_set(s, p)
    }
    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {
        self.g.get_parent_set(node)
    }
    fn get_children_set(&self, node: usize) -> BTreeSet<usize> {
        self.g.get_children_set(node)
    }
}

/// Factored rewards from a seed; kept as plain data for the reference.
#[derive(Clone, Debug)]
pub struct Rw {
    pub inst: Vec<Vec<f64>>,
    pub trans: Vec<Vec<Vec<f64>>>,
}
impl Rw {
    /// style 0: small integers incl. negative; 1: floats; 2: rate only; 3: transitions only; 4: one node only; 5: positive
    pub fn gen(card: &[usize], style: i64, seed: u64) -> Rw {
        let mut r = simos::Rng::new(seed ^ 0x77);
        let mut inst = vec![];
        let mut trans = vec![];
        let only = r.below(card.len() as u64) as usize;
        for (i, &c) in card.iter().enumerate() {
            let mut v = |t: bool| match style {
                0 => r.range(-4, 6) as f64,
                1 => 4.0 * r.f() - 1.0,
                2 => {
                    if t {
                        0.0
                    } else {
                        r.range(0, 8) as f64
                    }
                }
                3 => {
                    if t {
                        r.range(-3, 8) as f64
                    } else {
                        0.0
                    }
                }
                4 => {
                    if i == only {
                        r.range(1, 9) as f64
                    } else {
                        0.0
                    }
                }
                _ => 0.25 + r.f() * 3.0,
            };
            inst.push((0..c).map(|_| v(false)).collect());
            trans.push((0..c).map(|x| (0..c).map(|y| if x == y { 0.0 } else { v(true) }).collect()).collect());
        }
        Rw { inst, trans }
    }
    pub fn factored<T: NetworkProcess>(&self, g: &T) -> FactoredRewardFunction {
        let mut f = FactoredRewardFunction::initialize_from_network_process(g);
        for i in 0..self.inst.len() {
            f.get_instantaneous_reward_mut(i).assign(&Array1::from_vec(self.inst[i].clone()));
            let c = self.inst[i].len();
            f.get_transition_reward_mut(i)
                .assign(&Array2::from_shape_fn((c, c), |(x, y)| self.trans[i][x][y]));
        }
        f
    }
    pub fn rate(&self, s: &[usize]) -> f64 {
        s.iter().enumerate().map(|(i, &x)| self.inst[i][x]).sum()
    }
}
/// A reward function that is a simulator callback point.
pub struct HReward {
    pub f: FactoredRewardFunction,
}
impl RewardFunction for HReward {
    fn call(&self, c: &NetworkProcessState, p: Option<&NetworkProcessState>) -> Reward {
        cb("reward function");
        self.f.call(c, p)
    }
    fn initialize_from_network_process<T: NetworkProcess>(p: &T) -> Self {
        HReward { f: FactoredRewardFunction::initialize_from_network_process(p) }
    }
}

// ------------------------------------------------------------------------------------------------ compact parameters
/// cards packed base 8, node 0 in the lowest digit
pub fn unpack_card(n: usize, code: i64) -> Vec<usize> {
    (0..n).map(|i| (((code >> (3 * (i % 21))) & 7) as usize).max(2)).collect()
}
pub fn pack_card(c: &[usize]) -> i64 {
    c.iter().enumerate().map(|(i, &x)| (x as i64) << (3 * i)).sum()
}
pub fn net_of(s: &crate::spec::Spec) -> Net {
    net_styled(s, s.get("style"), s.get("rates") as u64)
}
/// the structure of the specification's network with other intensities
pub fn net_styled(s: &crate::spec::Spec, style: i64, rates: u64) -> Net {
    let (card, parents) = shape_of(s);
    let mut net = Net::with_parents(&card, parents, style, rates);
    // other units of time
    let k = s.opt("scale2", 0);
    // few bits for fast processes, whose rows have to sum up to zero within an absolute tolerance
    if k > 14 {
        for row in net.cim.iter_mut().flatten().flat_map(|b| b.iter_mut().enumerate()) {
            let (x, v) = row;
            for (y, q) in v.iter_mut().enumerate() {
                *q = if x != y && *q > 0.0 { (*q * 65536.0).round().max(1.0) / 65536.0 } else { 0.0 };
            }
            v[x] = -v.iter().sum::<f64>();
        }
    }
    if k != 0 {
        net.cim.iter_mut().flatten().flatten().flatten().for_each(|q| *q *= 2f64.powi(k as i32));
    }
    net
}
/// Sometimes: very fast or very slow processes.
pub fn rescale(s: &mut crate::spec::Spec, r: &mut simos::Rng) {
    if r.below(6) == 0 && s.get("style") != 7 {
        s.set("scale2", *r.pick(&[-60, -30, -14, -7, 7, 12, 30, 60]));
    }
}
/// cardinalities and parents of the specification's network
pub fn shape_of(s: &crate::spec::Spec) -> (Vec<usize>, Vec<Vec<usize>>) {
    let n = s.get("n") as usize;
    let mut card = unpack_card(n, s.get("card"));
    let mut parents = parents_of(n, s.get("edges") as u64);
    // a large domain for the first node
    if s.opt("bigc", 0) > 0 {
        card[0] = s.get("bigc") as usize;
    }
    // a node with all others as parents
    let star = s.opt("star", 0) as usize;
    if star > 0 && star <= n {
        parents[star - 1] = (0..n).filter(|p| *p != star - 1).collect();
    }
    (card, parents)
}
/// drop the last parents of every variable whose parameters exceed `max` numbers
pub fn trim(card: &[usize], parents: &mut [Vec<usize>], max: usize) {
    for i in 0..card.len() {
        while parents[i].iter().map(|&p| card[p]).product::<usize>() * card[i] * card[i] > max && !parents[i].is_empty() {
            parents[i].pop();
        }
    }
}
/// bit p*8+c: p is a parent of c; for more than 8 nodes up to three parents per node are derived from the number
pub fn parents_of(n: usize, e: u64) -> Vec<Vec<usize>> {
    (0..n)
        .map(|c| {
            if n <= 8 {
                (0..n).filter(|&p| p != c && e >> (p * 8 + c) & 1 == 1).collect()
            } else {
                let mut v: Vec<usize> = (0..e.count_ones() as usize % 4)
                    .map(|k| (simos::mix2(e, (c * 4 + k) as u64) % n as u64) as usize)
                    .filter(|&p| p != c)
                    .collect();
                v.sort();
                v.dedup();
                v
            }
        })
        .collect()
}
/// Sometimes: hundreds of parent configurations, or a domain of many states.
pub fn widen(s: &mut crate::spec::Spec, r: &mut simos::Rng, max_joint: usize) {
    match r.below(20) {
        0 => {
            let card: Vec<usize> = match r.below(4) {
                0 => vec![2; 10],
                1 => vec![4; 6],
                2 => vec![5, 5, 5, 4, 2],
                _ => vec![3, 2, 3, 2, 3, 2, 3],
            };
            if card.iter().product::<usize>() <= max_joint {
                s.set("n", card.len() as i64);
                s.set("card", pack_card(&card));
                s.set("star", r.range(1, card.len() as i64));
                let few = r.next() & r.next() & r.next();
                s.set("edges", if card.len() > 8 { 7 } else { (few >> 1) as i64 });
            }
        }
        1 => {
            let c = *r.pick(&[9, 12, 17, 33, 70]);
            let n = s.get("n") as usize;
            let joint = unpack_card(n, s.get("card")).iter().skip(1).product::<usize>() * c as usize;
            if joint <= max_joint {
                s.set("bigc", c);
                // rates over fourteen orders of magnitude in rows this long exceed the library's tolerance
                if s.opt("style", 1) == 7 {
                    s.set("style", 1);
                }
            }
        }
        _ => {}
    }
}
/// Sometimes: more variables than bits in a word.  The caller scales its workload down when this says so.
pub fn crowd(s: &mut crate::spec::Spec, r: &mut simos::Rng, one_in: u64) -> bool {
    if r.below(one_in) != 0 {
        return false;
    }
    s.set("n", *r.pick(&[33, 63, 64, 65, 66, 80, 100, 127, 128]));
    s.set("card", (0..21).map(|i| r.range(2, 3) << (3 * i)).sum());
    // up to three parents each
    s.set("edges", (r.next() >> 1) as i64);
    s.set("star", 0);
    s.set("bigc", 0);
    s.set("style", 1);
    true
}
pub struct NetGen {
    pub n: (i64, i64),
    pub card: (i64, i64),
    pub max_joint: usize,
    pub max_parents: usize,
    pub styles: &'static [i64],
}
/// draw a network into the parameters of a specification
pub fn gen_net(s: &mut crate::spec::Spec, r: &mut simos::Rng, g: NetGen) {
    let n = r.range(g.n.0, g.n.1) as usize;
    let mut card: Vec<usize> = (0..n).map(|_| r.range(g.card.0, g.card.1) as usize).collect();
    while card.iter().product::<usize>() > g.max_joint {
        let i = r.below(n as u64) as usize;
        if card[i] > 2 {
            card[i] -= 1;
        } else if card.iter().all(|&c| c == 2) {
            card.pop();
        }
    }
    let n = card.len();
    let dens = *r.pick(&[0.0, 0.2, 0.4, 0.6, 1.0]);
    let mut e = if n > 8 { r.next() >> 1 } else { 0 };
    for c in 0..if n > 8 { 0 } else { n } {
        let mut k = 0;
        let mut order: Vec<usize> = (0..n).filter(|&p| p != c).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i as u64 + 1) as usize);
        }
        for p in order {
            if k < g.max_parents && r.chance(dens) {
                e |= 1 << (p * 8 + c);
                k += 1;
            }
        }
    }
    s.set("n", n as i64);
    s.set("card", pack_card(&card));
    s.set("edges", e as i64);
    s.set("style", *r.pick(g.styles));
    s.set("rates", (r.next() >> 40) as i64);
}
