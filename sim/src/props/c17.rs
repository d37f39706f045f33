//! C17: learned statistics conserve what was observed.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::learn::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::{Mix, Net};
use reCTBN::parameter_learning::{sufficient_statistics, BayesianApproach, ParameterLearning, MLE};
use reCTBN::params::Params;
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C17",
    gen,
    run,
    quick: (20000, 50.0),
    thorough: (2_000_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("queries", Shrink::Int(1)),
        ("fresh", Shrink::Int(0)),
        ("warm", Shrink::Int(0)),
        ("traj", Shrink::Int(1)),
        ("rows", Shrink::Int(2)),
        ("cuts", Shrink::Int(0)),
        ("lost", Shrink::Int(0)),
        ("redundant", Shrink::Int(0)),
        ("shuffle", Shrink::Int(0)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = simulated histories x recorder crashes (a trajectory ends and another starts at the same observation), lost, reordered and redundant observations x parent sets, estimators and priors queried x schedule of concurrent learners; transitions are compared exactly and residence times to 1e-9 with what the recorded rows show; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: "kernel scheduler, futex, clock, sleep and entropy source are simulated; the recorded histories come from an independent Gillespie simulation of the network",
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C17");
    let shape = match r.below(8) {
        0 => NetGen { n: (6, 10), card: (2, 3), max_joint: usize::MAX, max_parents: 3, styles: &[0, 1, 2] },
        1 => NetGen { n: (2, 3), card: (5, 7), max_joint: usize::MAX, max_parents: 2, styles: &[0, 1, 2] },
        _ => NetGen { n: (1, 5), card: (2, 5), max_joint: usize::MAX, max_parents: 3, styles: &[0, 1, 2, 3, 5, 6, 7] },
    };
    gen_net(&mut s, r, shape);
    widen(&mut s, r, usize::MAX);
    let crowded = crowd(&mut s, r, 40);
    s.set("traj", *r.pick(&[1, 1, 2, 3, 5, 12]));
    s.set("rows", *r.pick(&[1, 2, 3, 5, 20, 100, if t { 3000 } else { 600 }]));
    if r.below(if t { 200 } else { 600 }) == 0 {
        // counts beyond sixteen bits
        s.set("n", r.range(1, 2)).set("star", 0).set("bigc", 0).set("card", 2 | 2 << 3);
        s.set("traj", 1).set("rows", 180_000);
    }
    let big = s.get("rows") > 100_000;
    s.set("cuts", *r.pick(&[0, 1, 2, 5, 20]));
    s.set("lost", *r.pick(&[0, 0, 1, 3, 20]));
    s.set("redundant", *r.pick(&[0, 1, 3, 20]));
    s.set("shuffle", r.range(0, 1));
    s.set("queries", if big { 1 } else { r.range(1, 6) });
    s.set("timescale", *r.pick(&[0, 0, 0, 1, 2, 3]));
    s.set("dseed", (r.next() >> 34) as i64);
    s.set("clients", *r.pick(&[1, 1, 1, 2, 3]));
    s.set("fresh", (!big && r.below(3) == 0) as i64);
    gen_env(&mut s, r);
    s.set("logs", (r.below(6) == 0) as i64);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, (s.get("traj") * s.get("rows") * s.get("queries")) as u64 * 300);
    s
}

/// the recorder ends a trajectory and starts the next with the same observation
pub fn cut(d: &mut Vec<Rows>, r: &mut Mix) {
    let i = r.below(d.len() as u64) as usize;
    let k = r.below(d[i].len() as u64) as usize;
    let tail = d[i][k..].to_vec();
    d[i].truncate(k + 1);
    d.push(tail);
}
/// another observation of an unchanged state
pub fn redundant(d: &mut [Rows], r: &mut Mix) {
    let i = r.below(d.len() as u64) as usize;
    let k = r.below(d[i].len() as u64) as usize;
    let (t0, s) = d[i][k].clone();
    let t = match d[i].get(k + 1) {
        Some(x) if r.below(4) > 0 => t0 + (x.0 - t0) * r.f(),
        _ => t0,
    };
    d[i].insert(k + 1, (t, s));
}
pub fn shuffle(d: &mut [Rows], r: &mut Mix) {
    for i in (1..d.len()).rev() {
        d.swap(i, r.below(i as u64 + 1) as usize);
    }
}
pub fn lose(d: &mut [Rows], r: &mut Mix) {
    let i = r.below(d.len() as u64) as usize;
    if d[i].len() > 1 {
        let k = r.below(d[i].len() as u64) as usize;
        d[i].remove(k);
    }
}

struct Query {
    node: usize,
    set: Vec<usize>,
    what: u64,
    alpha: usize,
    tau: f64,
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

fn ask(g: &CtbnNetwork, net: &Net, data: &reCTBN::tools::Dataset, rows: &[Rows], q: &Query, what: &str) -> Res {
    let card = &net.card;
    let (m, t) = statistics(card, rows, q.node, &q.set);
    let nb = m.len();
    let c = card[q.node];
    let set: BTreeSet<usize> = q.set.iter().copied().collect();
    let at = |b: usize, x: usize| format!("{}: variable {} in state {} with parents {:?} = {:?}", what, q.node, x, q.set, values(card, &q.set, b));
    if q.what == 0 {
        let (lm, lt) = sufficient_statistics(g, data, q.node, &set);
        check!(lm.shape() == [nb, c, c] && lt.shape() == [nb, c], "shape", "{}: {:?} {:?}", what, lm.shape(), lt.shape());
        for b in 0..nb {
            for x in 0..c {
                for y in 0..c {
                    check!(
                        lm[[b, x, y]] == m[b][x][y],
                        "transitions",
                        "{}: {} transitions to {}, the rows show {}",
                        at(b, x),
                        lm[[b, x, y]],
                        y,
                        m[b][x][y]
                    );
                }
                check!(near(lt[[b, x]], t[b][x]), "residence", "{}: stays {:e}, the rows show {:e}", at(b, x), lt[[b, x]], t[b][x]);
            }
        }
        return Ok(());
    }
    let given = if q.what & 4 == 0 { Some(set) } else { None };
    let (p, prior) = if q.what & 3 == 1 {
        (MLE {}.fit(g, data, q.node, given), Prior::Mle)
    } else {
        let b = BayesianApproach { alpha: q.alpha, tau: q.tau };
        (b.fit(g, data, q.node, given), Prior::Bayes { alpha: q.alpha, tau: q.tau })
    };
    let cim = match get_cim(&p) {
        Some(x) => x,
        None => return fail("nothing", format!("{}: no intensities were learned", what)),
    };
    check!(cim.len() == nb && cim.iter().all(|b| b.len() == c), "shape", "{}: {} blocks instead of {}", what, cim.len(), nb);
    for b in 0..nb {
        for x in 0..c {
            let mut sum = 0.0;
            for y in 0..c {
                if y != x {
                    let want = intensity(prior, nb, m[b][x][y], t[b][x]);
                    sum += want;
                    check!(
                        near(cim[b][x][y], want),
                        "intensity",
                        "{}: {:?} intensity to {} is {:e}, the statistics ({}, {:e}) give {:e}",
                        at(b, x),
                        prior,
                        y,
                        cim[b][x][y],
                        m[b][x][y],
                        t[b][x],
                        want
                    );
                }
            }
            check!(near(cim[b][x][x], -sum), "diagonal", "{}: {:?} diagonal {:e}, rates sum to {:e}", at(b, x), prior, cim[b][x][x], sum);
        }
    }
    let Params::DiscreteStatesContinousTime(p) = &p;
    if let (Some(lm), Some(lt)) = (p.get_transitions(), p.get_residence_time()) {
        check!(lm.shape() == [nb, c, c] && lt.shape() == [nb, c], "shape", "{}: {:?} {:?}", what, lm.shape(), lt.shape());
        for b in 0..nb {
            for x in 0..c {
                check!((0..c).all(|y| lm[[b, x, y]] == m[b][x][y]), "kept-transitions", "{}", at(b, x));
                check!(near(lt[[b, x]], t[b][x]), "kept-residence", "{}: {:e} {:e}", at(b, x), lt[[b, x]], t[b][x]);
            }
        }
    } else {
        return fail("nothing", format!("{}: no statistics were kept", what));
    }
    Ok(())
}

/// the same recording of a slower clock
pub fn slower(data: &[Rows], f: f64) -> Vec<Rows> {
    data.iter().map(|t| t.iter().map(|x| (x.0 * f, x.1.clone())).collect()).collect()
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let n = net.n();
    let mut r = Mix(e.p("dseed") as u64);
    let scale = [1.0, 1e-6, 1e6, 1e12][e.u("timescale")];
    let mut base = model::law::simulate(&net, r.next(), e.u("traj"), f64::INFINITY, e.u("rows"));
    // observation ends somewhere after the last transition; times start anywhere
    for t in base.iter_mut() {
        let l = t.last().unwrap().clone();
        if r.below(2) == 0 {
            t.push((l.0 + r.f() / net.exit(0, &l.1), l.1));
        }
        let off = if r.below(3) == 0 { r.f() * 10.0 } else { 0.0 };
        for x in t.iter_mut() {
            x.0 = (x.0 + off) * scale;
        }
    }
    let mut inter = base.clone();
    for _ in 0..e.u("cuts") {
        cut(&mut inter, &mut r);
    }
    for _ in 0..e.u("redundant") {
        redundant(&mut inter, &mut r);
    }
    if e.p("shuffle") != 0 {
        shuffle(&mut inter, &mut r);
    }
    let mut lossy = inter.clone();
    for _ in 0..e.u("lost") {
        lose(&mut lossy, &mut r);
    }
    e.count("wfault:recorder_cut", e.p("cuts") as f64);
    e.count("wfault:redundant_row", e.p("redundant") as f64);
    e.count("wfault:lost_row", e.p("lost") as f64);
    e.count("wfault:reordered_trajectories", e.p("shuffle") as f64);
    let qs: Vec<Query> = (0..e.u("queries"))
        .map(|_| {
            let node = r.below(n as u64) as usize;
            // what: 0 statistics, 1 MLE, 2 Bayes, +4 with the parents of the network
            let what = *[0, 1, 1, 2, 2, 5, 6].get(r.below(7) as usize).unwrap();
            let mut set: Vec<usize> = vec![];
            if what & 4 != 0 {
                set = net.parents[node].clone();
            } else {
                let k = r.below(n as u64).min(4);
                let mut left: Vec<usize> = (0..n).filter(|&p| p != node).collect();
                for _ in 0..k {
                    let i = left.swap_remove(r.below(left.len() as u64) as usize);
                    if blocks(&net.card, &set) * net.card[i] <= 700 {
                        set.push(i);
                    }
                }
                set.sort();
            }
            Query { node, set, what, alpha: r.below(4) as usize + (what & 3 != 2) as usize, tau: [0.5, 1.0, 3.25, 1e-3][r.below(4) as usize] }
        })
        .collect();
    // interruptions alone change nothing: the reference agrees on both recordings
    for q in &qs {
        let (m0, t0) = statistics(&net.card, &base, q.node, &q.set);
        let (m1, t1) = statistics(&net.card, &inter, q.node, &q.set);
        assert!(m0 == m1, "harness: the recorder changed the reference statistics");
        for (a, b) in t0.iter().flatten().zip(t1.iter().flatten()) {
            assert!((a - b).abs() <= 1e-10 * a.abs().max(b.abs()), "harness: residence times {:e} {:e}", a, b);
        }
    }
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        let sets = [("complete recording", &base), ("interrupted recording", &inter), ("lossy recording", &lossy)];
        let data: Vec<_> = sets.iter().map(|s| dataset(s.1)).collect();
        let before: Vec<_> = data.iter().map(dataset_bits).collect();
        let r = clients(e.u("clients"), |_| {
            for q in &qs {
                for (k, d) in data.iter().enumerate() {
                    ask(&g, &net, d, sets[k].1, q, sets[k].0)?;
                }
                // datasets that come and go: the next one lies where the last one was
                if e.p("fresh") != 0 {
                    for (k, s) in sets.iter().enumerate().chain(sets.iter().enumerate()).take(4) {
                        for f in [1.0, 1.25] {
                            let rows = slower(s.1, f);
                            ask(&g, &net, &dataset(&rows), &rows, q, sets[k].0)?;
                        }
                    }
                }
            }
            Ok(())
        });
        let same = data.iter().map(dataset_bits).eq(before);
        (r, same)
    })?;
    check!(res.1, "dataset", "learning changed the dataset");
    for x in all_ok(res.0)? {
        x?;
    }
    e.count("recordings_queried", (3 * qs.len() * e.u("clients")) as f64);
    simos::note(inter.len() as u64);
    Ok(())
}
