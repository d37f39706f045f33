//! C32: scores equal the closed-form marginal likelihood.
use super::c17::{cut, lose, redundant, shuffle, slower};
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::learn::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::{Mix, Net};
use model::stat::ln_gamma;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C32",
    gen,
    run,
    quick: (40000, 35.0),
    thorough: (3_000_000, 300.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("queries", Shrink::Int(1)),
        ("fresh", Shrink::Int(0)),
        ("warm", Shrink::Int(0)),
        ("traj", Shrink::Int(1)),
        ("rows", Shrink::Int(2)),
        ("cuts", Shrink::Int(0)),
        ("lost", Shrink::Int(0)),
        ("redundant", Shrink::Int(0)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = simulated histories x recorder crashes, lost, reordered and redundant observations x scores, priors and parent sets queried by concurrent threads on shared score objects, repeatedly and in differing order x schedule; each score is compared to 1e-10 of its largest terms with the closed form; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: "kernel scheduler, futex, clock, sleep and entropy source are simulated; the recorded histories come from an independent Gillespie simulation of the network",
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C32");
    let shape = match r.below(6) {
        0 => NetGen { n: (6, 10), card: (2, 3), max_joint: usize::MAX, max_parents: 3, styles: &[0, 1, 2] },
        1 => NetGen { n: (2, 3), card: (5, 7), max_joint: usize::MAX, max_parents: 2, styles: &[0, 1, 2] },
        _ => NetGen { n: (1, 5), card: (2, 5), max_joint: usize::MAX, max_parents: 3, styles: &[0, 1, 2, 3, 5, 6, 7] },
    };
    gen_net(&mut s, r, shape);
    widen(&mut s, r, usize::MAX);
    let crowded = crowd(&mut s, r, 40);
    s.set("traj", *r.pick(&[1, 1, 2, 3, 5, 12]));
    s.set("rows", *r.pick(&[2, 3, 5, 20, 100, if t { 3000 } else { 400 }]));
    if r.below(if t { 200 } else { 600 }) == 0 {
        // counts beyond sixteen bits
        s.set("n", r.range(1, 2)).set("star", 0).set("bigc", 0).set("card", 2 | 2 << 3);
        s.set("traj", 1).set("rows", 180_000);
    }
    let big = s.get("rows") > 100_000;
    s.set("cuts", *r.pick(&[0, 0, 1, 5]));
    s.set("lost", *r.pick(&[0, 0, 1, 3, 20]));
    s.set("redundant", *r.pick(&[0, 0, 1, 20]));
    s.set("queries", if big { 1 } else { r.range(1, 8) });
    s.set("timescale", *r.pick(&[0, 0, 0, 1, 2]));
    s.set("dseed", (r.next() >> 34) as i64);
    s.set("clients", *r.pick(&[1, 1, 1, 2, 3]));
    s.set("fresh", (!big && r.below(3) == 0) as i64);
    gen_env(&mut s, r);
    s.set("logs", (r.below(6) == 0) as i64);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, (s.get("traj") * s.get("rows") * s.get("queries")) as u64 * 300);
    s
}

/// the score and the sum of the magnitudes of its terms
pub fn closed_form(net: &Net, data: &[Rows], node: usize, set: &[usize], alpha: usize, tau: f64, bic: bool) -> (f64, f64) {
    let (m, t) = statistics(&net.card, data, node, set);
    let nb = m.len();
    let c = net.card[node];
    let a = alpha as f64 / nb as f64;
    let tau = tau / nb as f64;
    let mut sum = 0.0;
    let mut mag = 0.0;
    let mut add = |x: f64| {
        sum += x;
        mag += x.abs();
    };
    for b in 0..nb {
        for x in 0..c {
            let out: usize = (0..c).filter(|&y| y != x).map(|y| m[b][x][y]).sum();
            let o = out as f64;
            // exit rate: Gamma prior, exponential times
            add(ln_gamma(a + o + 1.0));
            add(-ln_gamma(a + 1.0));
            add((a + 1.0) * tau.ln());
            add(-(a + o + 1.0) * (tau + t[b][x]).ln());
            // successors: Dirichlet prior
            add(ln_gamma(a));
            add(-ln_gamma(a + o));
            for y in 0..c {
                if y != x {
                    add(ln_gamma(a + m[b][x][y] as f64));
                    add(-ln_gamma(a));
                }
            }
        }
    }
    if bic {
        let size: usize = data.iter().map(|t| t.len() - 1).sum();
        add(-0.5 * (size as f64).ln() * (nb * c * (c - 1)) as f64);
    }
    (sum, mag)
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let n = net.n();
    let mut r = Mix(e.p("dseed") as u64);
    let scale = [1.0, 1e-6, 1e6][e.u("timescale")];
    let mut base = model::law::simulate(&net, r.next(), e.u("traj"), f64::INFINITY, e.u("rows"));
    for t in base.iter_mut() {
        let l = t.last().unwrap().clone();
        if r.below(2) == 0 {
            t.push((l.0 + r.f() / net.exit(0, &l.1), l.1));
        }
        let off = if r.below(3) == 0 { r.f() * 10.0 } else { 0.0 };
        for x in t.iter_mut() {
            x.0 = (x.0 + off) * scale;
        }
    }
    let mut rec = base.clone();
    for _ in 0..e.u("cuts") {
        cut(&mut rec, &mut r);
    }
    for _ in 0..e.u("redundant") {
        redundant(&mut rec, &mut r);
    }
    if e.u("cuts") > 0 {
        shuffle(&mut rec, &mut r);
    }
    for _ in 0..e.u("lost") {
        lose(&mut rec, &mut r);
    }
    e.count("wfault:recorder_cut", e.p("cuts") as f64);
    e.count("wfault:redundant_row", e.p("redundant") as f64);
    e.count("wfault:lost_row", e.p("lost") as f64);
    // a pseudo count of 0 is no prior; sizes below two rows have no BIC
    let pr: Vec<(usize, f64)> = (0..2).map(|_| (1 + r.below(4) as usize, [0.5, 1.0, 3.25, 1e-3][r.below(4) as usize] * scale)).collect();
    let sets = [base, rec];
    struct Q {
        node: usize,
        set: Vec<usize>,
        prior: usize,
        bic: bool,
        rec: usize,
        want: (f64, f64),
    }
    let mut qs: Vec<Q> = vec![];
    for k in 0..e.u("queries") {
        let node = r.below(n as u64) as usize;
        let mut set: Vec<usize> = vec![];
        let mut left: Vec<usize> = (0..n).filter(|&p| p != node).collect();
        for _ in 0..r.below(n as u64).min(4) {
            let i = left.swap_remove(r.below(left.len() as u64) as usize);
            if blocks(&net.card, &set) * net.card[i] <= 700 {
                set.push(i);
            }
        }
        set.sort();
        let (prior, bic, rec) = (r.below(2) as usize, r.below(2) == 0, r.below(2) as usize);
        let mut q = Q { node, set, prior, bic, rec, want: (0.0, 0.0) };
        // sometimes a query that differs from an earlier one in one respect
        if k > 0 && r.below(2) == 0 {
            let o = &qs[r.below(k as u64) as usize];
            q = Q { node: o.node, set: o.set.clone(), prior: o.prior, bic: o.bic, rec: o.rec, want: o.want };
            match r.below(4) {
                0 => q.prior = 1 - q.prior,
                1 => q.bic = !q.bic,
                2 => q.rec = 1 - q.rec,
                _ => {
                    q.set.pop();
                }
            }
        }
        q.want = closed_form(&net, &sets[q.rec], q.node, &q.set, pr[q.prior].0, pr[q.prior].1, q.bic);
        qs.push(q);
    }
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        let data: Vec<_> = sets.iter().map(|s| dataset(s)).collect();
        let ll: Vec<_> = pr.iter().map(|p| LogLikelihood::new(p.0, p.1)).collect();
        let bic: Vec<_> = pr.iter().map(|p| BIC::new(p.0, p.1)).collect();
        clients(e.u("clients"), |c| -> Res {
            for round in 0..2 {
                for k in 0..qs.len() {
                    // differing orders
                    let q = &qs[(k * (1 + 2 * c) + c + round) % qs.len()];
                    let set: BTreeSet<usize> = q.set.iter().copied().collect();
                    // datasets that come and go: the next one lies where the last one was
                    if e.p("fresh") != 0 && round == 0 {
                        for f in [1.0, 1.25] {
                            let rows = slower(&sets[q.rec], f);
                            let (want, mag) = closed_form(&net, &rows, q.node, &q.set, pr[q.prior].0, pr[q.prior].1, q.bic);
                            let d = dataset(&rows);
                            let got = if q.bic {
                                bic[q.prior].call(&g, q.node, &set, &d)
                            } else {
                                ll[q.prior].call(&g, q.node, &set, &d)
                            };
                            check!(
                                got == want || (got.is_nan() && want.is_nan()) || (got - want).abs() <= 1e-10 * (1.0 + mag),
                                "score",
                                "client {}: score of variable {} given {:?} on a new dataset is {:e} instead of {:e}",
                                c,
                                q.node,
                                q.set,
                                got,
                                want
                            );
                        }
                    }
                    let got = if q.bic {
                        bic[q.prior].call(&g, q.node, &set, &data[q.rec])
                    } else {
                        ll[q.prior].call(&g, q.node, &set, &data[q.rec])
                    };
                    let (want, mag) = q.want;
                    check!(
                        got == want || (got.is_nan() && want.is_nan()) || (got - want).abs() <= 1e-10 * (1.0 + mag),
                        "score",
                        "client {} round {}: {} with prior {:?} of variable {} given {:?} on recording {} is {:e} instead of {:e}",
                        c,
                        round,
                        if q.bic { "BIC" } else { "log-likelihood" },
                        pr[q.prior],
                        q.node,
                        q.set,
                        q.rec,
                        got,
                        want
                    );
                }
            }
            Ok(())
        })
    })?;
    for x in all_ok(res)? {
        x?;
    }
    e.count("scores_compared", (2 * qs.len() * e.u("clients")) as f64);
    for q in &qs {
        simos::note(q.want.0.to_bits());
    }
    Ok(())
}
