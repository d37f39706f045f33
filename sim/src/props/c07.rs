//! C07: score-based learning returns a local optimum on every schedule.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::learn::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::Mix;
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::Dataset;

pub const PROP: Prop = Prop {
    id: "C07",
    gen,
    run,
    quick: (60000, 60.0),
    thorough: (3_000_000, 600.0),
    shrink: &[
        ("fits", Shrink::Int(1)),
        ("clients", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("limit", Shrink::Int(-1)),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Schedules,
    rule: "one case = score landscape (synthetic without ties, or log-likelihood/BIC of simulated data) x maximum parent set x initial edges x number of fits and callers x workers x schedule, every score evaluation being a scheduling point; non-trivial when threads were switched; distinct by the sequence of (code location, thread, thread) of all context switches",
    real: REAL_ALL,
    stub: "the score function is synthetic in most runs; kernel scheduler, futex, clock, sleep and entropy source are simulated",
};

fn gen(r: &mut Rng, i: u64, _t: bool) -> Spec {
    let mut s = Spec::new("C07");
    let real = i % 5 == 4;
    let large = r.below(6) == 0;
    gen_net(
        &mut s,
        r,
        NetGen {
            n: if real { (1, 5) } else if large { (7, 10) } else { (1, 6) },
            card: (2, 3),
            max_joint: 1 << 13,
            max_parents: 2,
            styles: &[0, 1, 2, 3, 6, 8],
        },
    );
    let crowded = !real && crowd(&mut s, r, 300);
    s.set("real", if real { r.range(1, 2) } else { 0 });
    s.set("landscape", r.range(0, SynScore::STYLES - 1));
    s.set("lseed", (r.next() >> 30) as i64);
    s.set("limit", r.range(-1, s.get("n")));
    if crowded {
        s.set("limit", r.range(0, 2));
    }
    s.set("fits", if crowded { 1 } else { r.range(1, 3) });
    s.set("clients", if crowded { 1 } else { *r.pick(&[1, 1, 2, 3]) });
    s.set("workers", r.range(1, 6));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    let n = s.get("n") as u64;
    s.sched = gen_sched(r, if real { 400_000 } else { 20_000 + n * n * n * 400 });
    s
}

/// a score that is one of the three, and its values outside the simulated call
enum Score {
    Syn(SynScore),
    Ll(usize, f64),
    Bic(usize, f64),
}
fn fit<S: ScoreFunction>(s: S, limit: Option<usize>, card: &[usize], seed: u64, edges: bool, d: &Dataset) -> (bool, Vec<Mask>) {
    let hc = HillClimbing::new(s, limit);
    let g = hc.fit_transform(scratch(card, seed, edges), d);
    (same_nodes(&g, card), parent_masks(&g))
}
impl Score {
    fn fit(&self, limit: Option<usize>, card: &[usize], seed: u64, edges: bool, d: &Dataset) -> (bool, Vec<Mask>) {
        match self {
            Score::Syn(x) => fit(x.clone(), limit, card, seed, edges, d),
            Score::Ll(a, t) => fit(LogLikelihood::new(*a, *t), limit, card, seed, edges, d),
            Score::Bic(a, t) => fit(BIC::new(*a, *t), limit, card, seed, edges, d),
        }
    }
    fn value(&self, card: &[usize], node: usize, set: Mask, d: &Dataset) -> f64 {
        let g = scratch(card, 0, false);
        let s = members(set).into_iter().collect();
        match self {
            Score::Syn(x) => x.value(node, set),
            Score::Ll(a, t) => LogLikelihood::new(*a, *t).call(&g, node, &s, d),
            Score::Bic(a, t) => BIC::new(*a, *t).call(&g, node, &s, d),
        }
    }
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let card = &net.card;
    let n = net.n();
    let mut r = Mix(e.p("lseed") as u64);
    let (alpha, tau) = (1 + r.below(4) as usize, 0.1 + 3.0 * r.f());
    let rows = 10 + r.below(60) as usize;
    let data = dataset(&model::law::simulate(&net, r.next(), 1 + r.below(6) as usize, f64::INFINITY, rows));
    let score = match e.p("real") {
        0 => Score::Syn(SynScore { style: e.p("landscape"), seed: e.p("lseed") as u64 }),
        1 => Score::Ll(alpha, tau),
        _ => Score::Bic(alpha, tau),
    };
    let limit = if e.p("limit") < 0 { None } else { Some(e.u("limit")) };
    let max = limit.unwrap_or(n) as u32;
    let mut memo = std::collections::HashMap::new();
    if e.p("real") != 0 {
        // scores of recorded data may tie: then nothing is promised about the optimum
        let mut tie = false;
        for i in 0..n {
            let mut v: Vec<f64> = (0..(1 as Mask) << n)
                .filter(|s| s >> i & 1 == 0)
                .map(|s| {
                    let x = score.value(card, i, s, &data);
                    memo.insert((i, s), x);
                    x
                })
                .collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
            tie |= v.windows(2).any(|w| !(w[1] - w[0] > 1e-9 * w[0].abs()));
        }
        if tie {
            e.count("datasets_with_ties_skipped", 1.0);
            return Ok(());
        }
        e.count("real_scores", 1.0);
    }
    let base = {
        let (score, data) = (&score, &data);
        let mut cfg = simos::Config::plain(e.p("entropy") as u64 ^ 0xa107);
        cfg.ncpu = 2;
        e.alone(cfg, 1, move || {
            let (_, v) = score.fit(limit, card, 0, false, data);
            halves(v)
        })?
    };
    let base = join(&base);
    let fits = e.u("fits");
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        clients(e.u("clients"), |c| {
            (0..fits)
                .map(|k| score.fit(limit, card, (c * 10 + k) as u64 ^ e.p("lseed") as u64, true, &data))
                .collect::<Vec<_>>()
        })
    })?;
    for v in all_ok(res)? {
        for (same, g) in v {
            check!(same, "variables", "the learned network does not have the variables of the given one");
            for i in 0..n {
                let s = g[i];
                simos::note(key(s));
                check!(s >> i & 1 == 0, "self", "node {} is its own parent", i);
                check!(s.count_ones() <= max, "limit", "node {}: {} parents, the limit is {}", i, s.count_ones(), max);
                let mut val = |s: Mask| *memo.entry((i, s)).or_insert_with(|| score.value(card, i, s, &data));
                let here = val(s);
                let empty = val(0);
                check!(here >= empty, "worse-than-empty", "node {}: {:?} scores {} but the empty set {}", i, members(s), here, empty);
                for p in (0..n).filter(|&p| p != i) {
                    let t = s ^ 1 << p;
                    if t.count_ones() <= max && val(t) > here {
                        return fail(
                            "not-optimal",
                            format!("node {}: {:?} scores {} but {:?} scores {}", i, members(s), here, members(t), val(t)),
                        );
                    }
                }
                e.count("parents_learned", s.count_ones() as f64);
                e.count("parent_sets_checked", 1.0);
            }
            check!(g == base, "differs", "learned parent sets {:?}, alone in a fresh process {:?}", g, base);
        }
    }
    Ok(())
}
