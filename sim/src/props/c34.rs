//! C34: parents and children of a network mirror its edges.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::Mix;
use reCTBN::params::{Params, ParamsTrait};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::NetworkProcess;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
    id: "C34",
    gen,
    run,
    quick: (40000, 35.0),
    thorough: (3_000_000, 300.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("readers", Shrink::Int(0)),
        ("len", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = construction histories of several owners (nodes, edges, repeated edges, reinitialisation, parameters, failing calls whose panic is caught, networks edited by the graph generator) x concurrent readers of the finished networks x schedule; after every step the network is compared with a reference; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C34");
    // used by the warm-up only
    gen_net(&mut s, r, NetGen { n: (1, 4), card: (2, 3), max_joint: 48, max_parents: 2, styles: &[1] });
    s.set("start", if r.below(60) == 0 { *r.pick(&[66, 130, 260]) } else { *r.pick(&[0, 1, 2, 5, 9, 17, 33]) });
    s.set("len", r.range(1, if t { 300 } else { 80 }));
    if s.get("start") > 60 {
        s.set("len", r.range(1, if s.get("start") > 100 { 8 } else { 25 }));
    }
    s.set("hseed", (r.next() >> 30) as i64);
    s.set("clients", *r.pick(&[1, 1, 2, 3]));
    s.set("readers", *r.pick(&[0, 0, 2, 3]));
    s.set("workers", r.range(1, 4));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, 300_000);
    s
}

#[derive(Default)]
struct Model {
    card: Vec<usize>,
    label: Vec<String>,
    /// since the last node or initialisation
    edges: Option<BTreeSet<(usize, usize)>>,
    /// the number of blocks of the parameters
    blocks: Vec<Option<usize>>,
    /// whether it holds sufficient statistics
    stats: Vec<bool>,
}
impl Model {
    fn parents(&self, i: usize) -> BTreeSet<usize> {
        self.edges.iter().flatten().filter(|e| e.1 == i).map(|e| e.0).collect()
    }
    fn children(&self, i: usize) -> BTreeSet<usize> {
        self.edges.iter().flatten().filter(|e| e.0 == i).map(|e| e.1).collect()
    }
}
fn compare(g: &CtbnNetwork, m: &Model, at: &str) -> Res {
    let n = m.card.len();
    check!(g.get_number_of_nodes() == n && g.get_node_indices() == (0..n), "nodes", "{}: {} nodes instead of {}", at, g.get_number_of_nodes(), n);
    for i in 0..n {
        let p = g.get_node(i);
        check!(
            *p.get_label() == m.label[i] && p.get_reserved_space_as_parent() == m.card[i],
            "nodes",
            "{}: node {} is {} with {} states",
            at,
            i,
            p.get_label(),
            p.get_reserved_space_as_parent()
        );
        let b = get_cim(p).map(|c| c.len());
        check!(b == m.blocks[i], "parameters", "{}: node {} holds parameters of {:?} blocks instead of {:?}", at, i, b, m.blocks[i]);
        let Params::DiscreteStatesContinousTime(d) = p;
        let x = (d.get_transitions().is_some(), d.get_residence_time().is_some());
        check!(x == (m.stats[i], m.stats[i]), "statistics", "{}: node {} holds statistics {:?} instead of {}", at, i, x, m.stats[i]);
    }
    let Some(edges) = &m.edges else { return Ok(()) };
    for i in 0..n {
        let (p, c) = (g.get_parent_set(i), g.get_children_set(i));
        check!(p == m.parents(i), "parents", "{}: parents of {} are {:?} instead of {:?}", at, i, p, m.parents(i));
        check!(c == m.children(i), "children", "{}: children of {} are {:?} instead of {:?}", at, i, c, m.children(i));
    }
    let a = match g.get_adj_matrix() {
        Some(a) => a,
        None => return fail("matrix", format!("{}: there is no adjacency matrix", at)),
    };
    check!(
        a.shape() == [n, n] && a.indexed_iter().all(|((p, c), x)| (*x > 0) == edges.contains(&(p, c))),
        "matrix",
        "{}: adjacency matrix {:?} for {:?}",
        at,
        a,
        edges
    );
    Ok(())
}
fn forget(g: &mut CtbnNetwork, m: &mut Model, i: usize) {
    g.get_node_mut(i).reset_params();
    m.blocks[i] = None;
    m.stats[i] = false;
}
fn add_node(g: &mut CtbnNetwork, m: &mut Model, r: &mut Mix, at: &str) -> Res {
    let c = 2 + r.below(3) as usize;
    let i = m.card.len();
    let label = format!("v{}-{}", i, r.below(100));
    let mut p = param(&label, c);
    // parameters a node brings along are meaningless in the network
    if r.below(3) == 0 {
        set_cim(&mut p, cim_array(&uniform(1, c)));
    }
    let got = g.add_node(p);
    check!(matches!(got, Ok(x) if x == i), "index", "{}: node {} is {:?}", at, i, got);
    m.card.push(c);
    m.label.push(label);
    m.blocks.push(None);
    m.stats.push(false);
    // edges have to be inserted anew; nodes that had parents are given up, others keep their parameters
    for j in 0..i {
        if !m.parents(j).is_empty() {
            forget(g, m, j);
        }
    }
    m.edges = None;
    Ok(())
}
fn uniform(nb: usize, c: usize) -> Vec<Vec<Vec<f64>>> {
    vec![(0..c).map(|x| (0..c).map(|y| if x == y { -((c - 1) as f64) } else { 1.0 }).collect()).collect(); nb]
}

fn history(e: &Env, c: usize) -> Result<(CtbnNetwork, Model, [f64; 3]), crate::exec::Fail> {
    let mut r = Mix(simos::mix2(e.p("hseed") as u64, c as u64));
    let mut g = CtbnNetwork::new();
    let mut m = Model::default();
    let mut done = [0.0; 3];
    for k in 0..e.u("start") {
        add_node(&mut g, &mut m, &mut r, &format!("client {} start {}", c, k))?;
    }
    for k in 0..e.u("len") {
        let n = m.card.len();
        let kind = if n == 0 { 0 } else { r.below(16) };
        let at = format!("client {} step {} kind {}", c, k, kind);
        match kind {
            0 => add_node(&mut g, &mut m, &mut r, &at)?,
            1 => {
                g.initialize_adj_matrix();
                // what the library does with parameters is not specified here
                m.edges = Some(BTreeSet::new());
                (0..n).for_each(|i| forget(&mut g, &mut m, i));
            }
            2..=9 if n > 1 => {
                let p = r.below(n as u64) as usize;
                let i = (p + 1 + r.below(n as u64 - 1) as usize) % n;
                let nb: usize = m.parents(i).iter().map(|&p| m.card[p]).product();
                if nb * m.card[p] <= 2000 || m.parents(i).contains(&p) {
                    g.add_edge(p, i);
                    if m.edges.get_or_insert_with(Default::default).insert((p, i)) {
                        m.blocks[i] = None;
                        m.stats[i] = false;
                    } else {
                        forget(&mut g, &mut m, i);
                    }
                }
            }
            10..=12 => {
                let i = r.below(n as u64) as usize;
                let nb = m.parents(i).iter().map(|&p| m.card[p]).product();
                // parameters, statistics, or both
                let what = r.below(4);
                if what == 0 {
                    forget(&mut g, &mut m, i);
                } else {
                    set_cim(g.get_node_mut(i), cim_array(&uniform(nb, m.card[i])));
                    m.blocks[i] = Some(nb);
                }
                if what != 1 {
                    let Params::DiscreteStatesContinousTime(d) = g.get_node_mut(i);
                    d.set_transitions(ndarray::Array3::zeros((nb, m.card[i], m.card[i])));
                    d.set_residence_time(ndarray::Array2::zeros((nb, m.card[i])));
                    m.stats[i] = true;
                }
            }
            13 => {
                // an edge of a node that does not exist: the call fails, the edges stay
                let p = r.below(n as u64) as usize;
                let (a, b) = if r.below(2) == 0 { (p, n + r.below(3) as usize) } else { (n + r.below(3) as usize, p) };
                let x = catch_unwind(AssertUnwindSafe(|| g.add_edge(a, b)));
                check!(x.is_err(), "accepted", "{}: edge {} -> {} among {} nodes", at, a, b, n);
                forget(&mut g, &mut m, p);
                if m.edges.is_none() {
                    g.initialize_adj_matrix();
                    m.edges = Some(BTreeSet::new());
                    (0..n).for_each(|i| forget(&mut g, &mut m, i));
                }
                done[1] += 1.0;
            }
            14 => {
                // a single process takes one node and no edges
                let mut q = CtmpProcess::new();
                check!(q.get_number_of_nodes() == 0 && q.get_node_indices().count() == 0, "nodes", "{}: empty single process has nodes", at);
                q.add_node(param("only", 3)).unwrap();
                let second = q.add_node(param("second", 2));
                check!(
                    second.is_err() && q.get_number_of_nodes() == 1 && q.get_node_indices() == (0..1) && q.get_node(0).get_label() == "only",
                    "nodes",
                    "{}: second node of a single process: {:?}",
                    at,
                    second
                );
                check!(q.get_parent_set(0).is_empty() && q.get_children_set(0).is_empty(), "parents", "{}: single process", at);
                done[1] += 1.0;
            }
            _ => {
                let i = r.below(n as u64) as usize;
                forget(&mut g, &mut m, i);
            }
        }
        compare(&g, &m, &at)?;
        done[0] += 1.0;
    }
    Ok((g, m, done))
}

fn run(e: &Env) -> Res {
    let readers = e.u("readers");
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        let built = clients(e.u("clients"), |c| history(e, c));
        let mut v = vec![];
        for x in built {
            v.push(match x {
                Ok(Ok(x)) => x,
                Ok(Err(f)) => return vec![Ok(Err(f))],
                Err(p) => return vec![Err(p)],
            });
        }
        let mut out: Vec<std::thread::Result<Result<[f64; 3], crate::exec::Fail>>> = v.iter().map(|x| Ok(Ok(x.2))).collect();
        if readers > 0 {
            out.extend(clients(readers, |k| {
                for (g, m, _) in &v {
                    compare(g, m, &format!("reader {}", k))?;
                }
                Ok([0.0, 0.0, v.len() as f64])
            }));
        }
        out
    })?;
    for x in all_ok(res)? {
        let d = x?;
        for (name, v) in ["steps_compared", "wfault:failing_call", "networks_read"].iter().zip(d) {
            e.count(name, v);
        }
        simos::note(d[0] as u64);
    }
    Ok(())
}
