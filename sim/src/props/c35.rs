//! C35: inconsistent inputs are refused and change nothing.
use super::*;
use crate::glue::*;
use crate::learn::*;
use crate::ops::*;
use crate::props::c04::world_net;
use crate::spec::gen_sched;
use model::net::{Mix, Net};
use ndarray::{Array1, Array2};
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use reCTBN::parameter_learning::{BayesianApproach, MLE};
use reCTBN::params::{ParamsError, ParamsTrait, StateType};
use reCTBN::process::NetworkProcess;
use reCTBN::sampling::ForwardSampler;
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
    id: "C35",
    gen,
    run,
    quick: (40000, 45.0),
    thorough: (5_000_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("len", Shrink::Int(1)),
        ("later", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = histories of consistent and inconsistent inputs (trajectories, datasets, learning calls, generators, scores, unset parameters) of several threads x schedule, followed by operations that are compared with their execution in a process without any refusal; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C35");
    gen_net(&mut s, r, world_net());
    s.set("len", r.range(1, if t { 200 } else { 40 }));
    s.set("later", r.range(1, 4));
    s.set("hseed", (r.next() >> 30) as i64);
    s.set("clients", *r.pick(&[1, 1, 2, 3]));
    s.set("workers", r.range(1, 5));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, 400_000);
    s
}

/// did it end normally as it should?
fn verdict<R>(what: &str, valid: bool, f: impl FnOnce() -> R) -> Result<Option<R>, crate::exec::Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => {
            check!(valid, "accepted", "{}: not refused", what);
            Ok(Some(x))
        }
        Err(p) => {
            check!(!valid, "refused", "{}: refused with {}", what, payload(&p));
            Ok(None)
        }
    }
}
fn some_rows(r: &mut Mix, rows: usize, n: usize) -> Rows {
    let mut t = 0.0;
    (0..rows)
        .map(|_| {
            t += r.f();
            (t, (0..n).map(|_| r.below(2) as usize).collect())
        })
        .collect()
}
fn step(w: &World, r: &mut Mix, at: &str) -> Result<&'static str, crate::exec::Fail> {
    let net: &Net = &w.net;
    let n = net.n();
    let bad = r.below(2) == 0;
    match r.below(9) {
        0 => {
            let rows = *[0, 1, 2, 7, 64, 300].get(r.below(6) as usize).unwrap();
            let vars = r.below(6) as usize;
            let mut times = rows;
            if bad {
                times = match r.below(4) {
                    0 => rows + 1,
                    1 => rows + 1 + r.below(40) as usize,
                    2 => rows.saturating_sub(1),
                    _ => r.below(rows as u64 + 1) as usize,
                };
            }
            // a transposed recording
            let (rows, vars) = if bad && r.below(6) == 0 && times == rows { (vars, rows) } else { (rows, vars) };
            let ts: Vec<f64> = (0..times).map(|k| k as f64 + r.f()).collect();
            let ev: Vec<usize> = (0..rows * vars).map(|_| r.below(5) as usize).collect();
            let what = format!("{}: a trajectory of {} times and {} rows of {} variables", at, times, rows, vars);
            let x = verdict(&what, times == rows, || {
                Trajectory::new(Array1::from_vec(ts.clone()), Array2::from_shape_vec((rows, vars), ev.clone()).unwrap())
            })?;
            if let Some(x) = x {
                let y = x.clone();
                for x in [x, y] {
                    check!(
                        x.get_time().iter().map(|t| t.to_bits()).eq(ts.iter().map(|t| t.to_bits()))
                            && x.get_events().iter().eq(ev.iter())
                            && x.get_events().shape() == [rows, vars],
                        "contents",
                        "{}: holds something else",
                        what
                    );
                }
            }
            Ok("trajectory")
        }
        1 => {
            let count = *[0, 1, 2, 3, 5, 17, 40].get(r.below(7) as usize).unwrap();
            let vars = 1 + r.below(5) as usize;
            let mut ts: Vec<(usize, Rows)> = (0..count)
                .map(|_| {
                    let k = 1 + r.below(5) as usize;
                    (vars, some_rows(r, k, vars))
                })
                .collect();
            if bad && count > 0 {
                for _ in 0..1 + r.below(2) {
                    let i = r.below(count) as usize;
                    let v = match r.below(3) {
                        0 => vars + 1,
                        1 => vars - 1,
                        _ => 1 + r.below(8) as usize,
                    };
                    ts[i].0 = v;
                    let k = 1 + r.below(5) as usize;
                    ts[i].1 = some_rows(r, k, v);
                }
            }
            let valid = ts.iter().all(|t| t.0 == ts[0].0);
            let mk = |t: &(usize, Rows)| {
                Trajectory::new(
                    Array1::from_iter(t.1.iter().map(|x| x.0)),
                    Array2::from_shape_vec((t.1.len(), t.0), t.1.iter().flat_map(|x| x.1.clone()).collect()).unwrap(),
                )
            };
            let what = format!("{}: a dataset of trajectories of {:?} variables", at, ts.iter().map(|t| t.0).collect::<Vec<_>>());
            let d = verdict(&what, valid, || Dataset::new(ts.iter().map(mk).collect()))?;
            if let Some(d) = d {
                let mut want = vec![count];
                for t in &ts {
                    want.push(t.1.len() as u64);
                    want.extend(t.1.iter().map(|x| x.0.to_bits()));
                    want.extend(t.1.iter().flat_map(|x| x.1.iter().map(|v| *v as u64)));
                }
                check!(dataset_bits(&d) == want && dataset_bits(&d.clone()) == want, "contents", "{}: holds something else", what);
            }
            Ok("dataset")
        }
        k @ (2 | 3) => {
            // the network to be learned has other variables than the data
            let vars = if !bad {
                n
            } else {
                match r.below(3) {
                    0 => n + 1,
                    1 => n - 1,
                    _ => 1 + r.below(9) as usize,
                }
            };
            let valid = vars == n;
            let data = if valid && r.below(2) == 0 {
                w.data.clone()
            } else {
                let m = 2 + r.below(20) as usize;
                dataset(&(0..1 + r.below(3)).map(|_| some_rows(r, m, vars)).collect::<Vec<_>>())
            };
            let algo = r.below(3);
            let seed = r.next();
            let what = format!(
                "{}: {} on {} variables with data of {} variables",
                at,
                if k == 2 { "hill climbing" } else { "CTPC" },
                n,
                vars
            );
            let hnet = r.below(3) == 0;
            let fit = |g: reCTBN::process::ctbn::CtbnNetwork| {
                fn go<T: NetworkProcess>(k: u64, algo: u64, seed: u64, card: &[usize], g: T, d: &Dataset) -> (bool, Vec<Mask>) {
                    let syn = SynScore { style: (seed % SynScore::STYLES as u64) as i64, seed };
                    let (f, x) = (F::new(0.01), ChiSquare::new(0.01));
                    let g = match (k, algo) {
                        (2, 0) => HillClimbing::new(syn, Some(2)).fit_transform(g, d),
                        (2, 1) => HillClimbing::new(BIC::new(1, 1.0), None).fit_transform(g, d),
                        (2, _) => HillClimbing::new(LogLikelihood::new(1, 1.0), Some(1)).fit_transform(g, d),
                        (_, 0) => {
                            let mut l = SynLearner::new(card, seed);
                            l.pz = 0;
                            CTPC::new(l, f, x).fit_transform(g, d)
                        }
                        (_, 1) => CTPC::new(Dense(MLE {}), f, x).fit_transform(g, d),
                        (..) => CTPC::new(Dense(BayesianApproach { alpha: 1, tau: 1.0 }), f, x).fit_transform(g, d),
                    };
                    (same_nodes(&g, card), parent_masks(&g))
                }
                if hnet {
                    go(k, algo, seed, &net.card, HNet { g, armed: false }, &data)
                } else {
                    go(k, algo, seed, &net.card, g, &data)
                }
            };
            if let Some((same, a)) = verdict(&what, valid, || fit(scratch(&net.card, seed, true)))? {
                check!(same, "variables", "{}: the variables changed", what);
                let b = fit(scratch(&net.card, seed ^ 1, true)).1;
                check!(a == b, "differs", "{}: learned {:?}, then {:?}", what, a, b);
            }
            Ok("structure learning")
        }
        4 => {
            let d = if bad {
                *[-1e-300, -1.0, -1e-9, 1.0 + f64::EPSILON, 1.0 + 1e-9, 2.0, 100.0, f64::INFINITY, f64::NEG_INFINITY]
                    .get(r.below(9) as usize)
                    .unwrap()
            } else {
                *[0.0, -0.0, 1.0, 1.0 - f64::EPSILON, 1e-300, r.f()].get(r.below(6) as usize).unwrap()
            };
            let what = format!("{}: a graph generator of density {:e}", at, d);
            let x: Option<UniformGraphGenerator> =
                verdict(&what, (0.0..=1.0).contains(&d), || RandomGraphGenerator::new(d, if r.below(2) == 0 { None } else { Some(r.next()) }))?;
            if let Some(mut x) = x {
                let mut g = scratch(&net.card, 7, true);
                x.generate_graph(&mut g);
                let m = parent_masks(&g);
                for i in 0..n {
                    check!(m[i] >> i & 1 == 0, "graph", "{}: variable {} is its own parent", what, i);
                    check!(d > 0.0 || m[i] == 0, "graph", "{}: variable {} has parents", what, i);
                    check!(d < 1.0 || m[i].count_ones() as usize == n - 1, "graph", "{}: variable {} lacks parents", what, i);
                }
            }
            Ok("graph generator")
        }
        5 => {
            let a = 5.0 * r.f();
            let (lo, hi) = if bad {
                *[(-1e-300, 1.0), (-1.0, 1.0), (-2.0, -1.0), (-0.5, 0.0), (f64::NEG_INFINITY, 1.0), (1.0, -1.0), (0.0, -1e-12)]
                    .get(r.below(7) as usize)
                    .unwrap()
            } else {
                *[(0.5, 1.0), (a + 0.01, a + 1.0), (1e-6, 1e6), (3.0, 3.0 + 1e-9)].get(r.below(4) as usize).unwrap()
            };
            let what = format!("{}: a parameter generator for {:e}..{:e}", at, lo, hi);
            let x: Option<UniformParametersGenerator> = verdict(&what, lo >= 0.0 && hi >= 0.0, || {
                RandomParametersGenerator::new(lo..hi, if r.below(2) == 0 { None } else { Some(r.next()) })
            })?;
            if let Some(mut x) = x {
                let mut g = build_structure(net);
                x.generate_parameters(&mut g);
                for i in 0..n {
                    check!(g.get_node(i).validate_params().is_ok(), "invalid", "{}: variable {} has no valid parameters", what, i);
                }
            }
            Ok("parameter generator")
        }
        6 => {
            let alpha = 1 + r.below(3) as usize;
            let tau = if bad {
                *[-1e-300, -1.0, -0.25, f64::NEG_INFINITY].get(r.below(4) as usize).unwrap()
            } else {
                *[1e-3, 1.0, 0.5 + r.f(), 40.0].get(r.below(4) as usize).unwrap()
            };
            let bic = r.below(2) == 0;
            let what = format!("{}: {} with tau {:e}", at, if bic { "BIC" } else { "the log-likelihood" }, tau);
            let i = r.below(n as u64) as usize;
            let set: BTreeSet<usize> = (0..n).filter(|&p| p != i && r.below(3) == 0).take(2).collect();
            let x = verdict(&what, tau >= 0.0, || {
                if bic {
                    BIC::new(alpha, tau).call(&w.g, i, &set, &w.data)
                } else {
                    LogLikelihood::new(alpha, tau).call(&w.g, i, &set, &w.data)
                }
            })?;
            if let Some(x) = x {
                let data: Vec<Rows> = w.data.get_trajectories().iter().map(rows).collect();
                let v: Vec<usize> = set.into_iter().collect();
                let (want, mag) = super::c32::closed_form(net, &data, i, &v, alpha, tau, bic);
                check!((x - want).abs() <= 1e-9 * mag, "score", "{}: {} instead of {}", what, x, want);
            }
            Ok("score")
        }
        7 => {
            // a variable without parameters
            let i = r.below(n as u64) as usize;
            let p = param("x", net.card[i]);
            let mut rng = ChaCha8Rng::seed_from_u64(r.next());
            let x = r.below(net.card[i] as u64) as usize;
            let unset = |e: &ParamsError| matches!(e, ParamsError::ParametersNotInitialized(_));
            check!(p.validate_params().is_err_and(|e| unset(&e)), "unset", "{}: a variable without parameters is valid", at);
            check!(
                p.get_random_residence_time(x, 0, &mut rng).is_err_and(|e| unset(&e)),
                "unset",
                "{}: a variable without parameters has a waiting time",
                at
            );
            check!(
                p.get_random_state(x, 0, &mut rng).is_err_and(|e| unset(&e)),
                "unset",
                "{}: a variable without parameters has a successor",
                at
            );
            let s = p.get_random_state_uniform(&mut rng);
            check!(p.state_to_index(&s) < net.card[i] && s == StateType::Discrete(p.state_to_index(&s)), "state", "{}: {:?}", at, s);
            Ok("unset parameters")
        }
        _ => {
            // a network in which one variable has no parameters
            let i = r.below(n as u64) as usize;
            let mut g = build_structure(net);
            for k in 0..n {
                if k != i || !bad {
                    set_cim(g.get_node_mut(k), cim_array(&net.cim[k]));
                }
            }
            let seed = r.next();
            let what = format!("{}: sampling while variable {} has {} parameters", at, i, if bad { "no" } else { "its" });
            verdict(&what, !bad, || ForwardSampler::new(&g, Some(seed), None).take(5).count())?;
            Ok("sampler")
        }
    }
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let (nc, later) = (e.u("clients"), e.u("later"));
    let op = |c: usize, k: usize| {
        let mut r = Mix(simos::mix2(e.p("hseed") as u64, (c * 100 + k) as u64 ^ 0xc35));
        (r.below(N_OPS as u64) as i64, r.next() >> 20)
    };
    let wseed = e.p("hseed") as u64 ^ 0x35;
    let mut base = vec![];
    for c in 0..nc {
        for k in 0..later {
            let (kind, a) = op(c, k);
            let cfg = simos::Config::plain(simos::mix2(e.p("entropy") as u64, 0xa135 + (c * 10 + k) as u64));
            let net = &net;
            base.push(e.alone(cfg, 1, move || World::with_data(net, wseed, 4, 16).op(kind, a))?);
        }
    }
    type Out = Result<(Vec<&'static str>, Vec<Vec<u64>>), crate::exec::Fail>;
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        let w = World::with_data(&net, wseed, 4, 16);
        clients(nc, |c| -> Out {
            let mut r = Mix(simos::mix2(e.p("hseed") as u64, c as u64));
            let mut kinds = vec![];
            for k in 0..e.u("len") {
                kinds.push(step(&w, &mut r, &format!("client {} step {}", c, k))?);
            }
            Ok((
                kinds,
                (0..later)
                    .map(|k| {
                        let (kind, a) = op(c, k);
                        w.op(kind, a)
                    })
                    .collect(),
            ))
        })
    })?;
    for (c, x) in all_ok(res)?.into_iter().enumerate() {
        let (kinds, vs) = x?;
        for k in kinds {
            e.count(&format!("inputs: {}", k), 1.0);
        }
        for (k, v) in vs.into_iter().enumerate() {
            for x in &v {
                simos::note(*x);
            }
            check!(
                v == base[c * later + k],
                "later",
                "thread {}: {} after refused inputs differs from the call in a process without any",
                c,
                OP_NAMES[op(c, k).0 as usize]
            );
            e.count("later_results_compared", 1.0);
        }
    }
    Ok(())
}
