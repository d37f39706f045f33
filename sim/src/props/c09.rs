//! C09: cached parameter learning never changes an answer.
use super::*;
use crate::glue::*;
use crate::learn::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::Mix;
use reCTBN::parameter_learning::{BayesianApproach, ParameterLearning, MLE};
use reCTBN::structure_learning::constraint_based_algorithm::Cache;
use reCTBN::tools::Dataset;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
    id: "C09",
    gen,
    run,
    quick: (60000, 45.0),
    thorough: (3_000_000, 600.0),
    shrink: &[
        ("requests", Shrink::Int(1)),
        ("clients", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("n", Shrink::Int(1)),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = history of requests (parent sets in level order, descending, random, or with jumps in size, with repetitions) x learner (synthetic or real) x failures of the learner on entry or exit of chosen fits x concurrent caches; every answer is compared with a direct fit; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: "the learner is synthetic in half of the runs; kernel scheduler, futex, clock, sleep and entropy source are simulated",
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C09");
    let shape = if r.below(6) == 0 {
        NetGen { n: (8, 20), card: (2, 3), max_joint: usize::MAX, max_parents: 2, styles: &[0, 1] }
    } else {
        NetGen { n: (1, 7), card: (2, 3), max_joint: 400, max_parents: 2, styles: &[0, 1, 2, 6] }
    };
    gen_net(&mut s, r, shape);
    let crowded = crowd(&mut s, r, 40);
    let n = s.get("n");
    s.set("node", r.range(0, n - 1));
    s.set("learner", r.range(0, 3));
    s.set("order", r.range(0, 5));
    s.set("requests", r.range(1, if t { 150 } else { 60 }));
    s.set("hseed", (r.next() >> 30) as i64);
    s.set("clients", *r.pick(&[1, 1, 2]));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    let reqs = (s.get("requests") * s.get("clients")) as u64;
    if r.below(3) > 0 {
        for _ in 0..*r.pick(&[1, 1, 2, 5, 20]) {
            let n = r.below(2 * reqs + 2);
            s.faults.push(Fault { kind: Fk::Panic, n, arg: 0 });
        }
    }
    s.sched = gen_sched(r, 200_000);
    s
}
/// the parent sets requested
fn requests(s: &Spec, c: u64) -> Vec<Mask> {
    let n = s.get("n") as usize;
    let node = s.get("node") as usize;
    let mut r = Mix(s.get("hseed") as u64 ^ c << 48);
    let others: Vec<usize> = (0..n).filter(|&p| p != node).collect();
    let of_size = |r: &mut Mix, k: usize| {
        let mut o = others.clone();
        while o.len() > k {
            let i = r.below(o.len() as u64) as usize;
            o.swap_remove(i);
        }
        mask(o)
    };
    let m = others.len().min(if n > 7 { 4 } else { 6 });
    let len = s.get("requests") as usize;
    let mut v: Vec<Mask> = vec![];
    for k in 0..len {
        let size = match s.get("order") {
            // as the PC algorithm: sizes l and l+1 alternate, l grows
            0 => k * (m + 1) / len + k % 2,
            1 => m - (k * (m + 1) / len).min(m),
            2 => r.below(m as u64 + 1) as usize,
            3 => *[0, m, 1, m / 2].get(r.below(4) as usize).unwrap(),
            4 => (k / 3) % (m + 1),
            _ => [0, 1, 2, 3][r.below(4) as usize],
        };
        v.push(if k > 0 && r.below(4) == 0 { v[r.below(k as u64) as usize] } else { of_size(&mut r, size.min(m)) });
    }
    v
}

fn go<P: ParameterLearning>(e: &Env, learner: P, data: &Dataset) -> Res {
    let net = net_of(e.spec);
    let node = e.u("node");
    let g = build(&net);
    let nc = e.u("clients");
    let reqs: Vec<Vec<Mask>> = (0..nc).map(|c| requests(e.spec, c as u64)).collect();
    let mut direct = std::collections::HashMap::new();
    for &q in reqs.iter().flatten() {
        direct.entry(q).or_insert_with(|| {
            params_bits(&learner.fit(&g, data, node, Some(members(q).into_iter().collect())))
        });
    }
    let learner = HLearner(learner);
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        clients(nc, |c| {
            let mut cache = Cache::new(&learner);
            let mut answers: Vec<Result<Vec<u64>, String>> = vec![];
            for &q in &reqs[c] {
                let set = members(q).into_iter().collect();
                answers.push(
                    catch_unwind(AssertUnwindSafe(|| params_bits(&cache.fit(&g, data, node, Some(set)))))
                        .map_err(|p| payload(&p)),
                );
            }
            answers
        })
    })?;
    for (c, answers) in all_ok(res)?.into_iter().enumerate() {
        let mut failed = 0;
        for (k, a) in answers.into_iter().enumerate() {
            let q = reqs[c][k];
            match a {
                Err(m) => {
                    check!(m.starts_with(PLANNED), "panic", "request {} for {:?}: {}", k, members(q), m);
                    failed += 1;
                    e.count("failed_requests", 1.0);
                }
                Ok(v) => {
                    simos::note(v.iter().fold(0, |a, b| simos::mix2(a, *b)));
                    check!(
                        v == direct[&q],
                        "differs",
                        "request {} for {:?} (after {} failed ones) is not what the learner gives",
                        k,
                        members(q),
                        failed
                    );
                    e.count("answers_compared", 1.0);
                    if failed > 0 {
                        e.count("answers_compared_after_a_failure", 1.0);
                    }
                }
            }
        }
    }
    Ok(())
}
fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let mut r = Mix(e.p("hseed") as u64);
    let data = dataset(&model::law::simulate(&net, r.next(), 3, f64::INFINITY, 30));
    match e.p("learner") {
        0 => go(e, MLE {}, &data),
        1 => go(e, BayesianApproach { alpha: 1 + r.below(3) as usize, tau: 0.5 + r.f() }, &data),
        _ => {
            let mut l = SynLearner::new(&net.card, r.next());
            (l.pf, l.px) = (1000, 1000);
            go(e, l, &data)
        }
    }
}
