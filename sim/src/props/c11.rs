//! C11: Monte Carlo rewards estimate the exact expected reward.
use super::*;
use crate::glue::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::shape;
use model::stat::binom_dev;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::RewardEvaluation;

pub const PROP: Prop = Prop {
    id: "C11",
    gen,
    run,
    quick: (2200, 60.0),
    thorough: (200_000, 700.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("iters", Shrink::Int(1)),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = network x factored reward x horizon x discount x number of iterations and evaluations x seeded or not x schedule; the estimates of all states are tested against the moments of the collected reward, integrated from the backward equations; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};
/// standard deviations a mean may be off
const Z: f64 = 9.0;

fn gen(r: &mut Rng, i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C11");
    gen_net(
        &mut s,
        r,
        NetGen { n: (1, 4), card: (2, 4), max_joint: 24, max_parents: 3, styles: &[0, 1, 2, 4, 6, 8] },
    );
    // 0: one state at a time, 1: state space, 2: early stop, 3: reward without variance
    let mode = match i % 10 {
        0..=3 => 0,
        4..=6 => 1,
        7..=8 => 2,
        _ => 3,
    };
    s.set("mode", mode);
    s.set("unseeded", if mode == 1 { (r.below(4) > 0) as i64 } else { (r.below(4) == 0) as i64 });
    s.set("seed", (r.next() >> 30) as i64);
    s.set("rwstyle", if mode == 2 { 1 } else { r.range(0, 5) });
    s.set("rwseed", (r.next() >> 40) as i64);
    // horizon in units of the fastest holding time (tenths), discount relative to the horizon (tenths)
    s.set("horizon10", *r.pick(&[5, 10, 20, 40, 80]));
    s.set("beta10", *r.pick(&[0, 0, 0, 1, 10, 30, 80]));
    let budget =
        (if t { 4.0 } else { 1.0 }) * 60_000.0 / (1.0 + s.get("n") as f64 * s.get("horizon10") as f64 * 0.1);
    s.set("iters", *r.pick(&[1, 2, 3, 5, 20, 100, 1000, 1000, 5000]));
    if mode == 2 {
        s.set("alpha100", *r.pick(&[2, 5, 10, 20]));
        s.set("err100", *r.pick(&[15, 20, 30]));
    }
    s.set("budget_traj", budget as i64);
    s.set("clients", *r.pick(&[1, 1, 1, 2]));
    s.set("workers", r.range(1, 4));
    rescale(&mut s, r);
    gen_env(&mut s, r);
    s.set("logs", (r.below(12) == 0) as i64);
    gen_warm(&mut s, r);
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, 100_000_000);
    s
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let joint = net.joint();
    let mode = e.p("mode");
    let mut rw = Rw::gen(&net.card, e.p("rwstyle"), e.p("rwseed") as u64);
    if mode == 3 {
        // the same rate in every state, nothing for transitions
        for i in 0..net.n() {
            let v = rw.inst[i][0] + 1.0;
            rw.inst[i].iter_mut().for_each(|x| *x = v);
            rw.trans[i].iter_mut().flatten().for_each(|x| *x = 0.0);
        }
    }
    let end = e.p("horizon10") as f64 * 0.1 / net.max_exit();
    let beta = e.p("beta10") as f64 * 0.1 / end;
    let crit = || {
        if beta == 0.0 {
            RewardCriteria::FiniteHorizon
        } else {
            RewardCriteria::InfiniteHorizon { discount_factor: beta }
        }
    };
    let mom = net.reward_moments(end, beta, &|s| rw.rate(s), &|i, x, y| rw.trans[i][x][y]);
    let shapes: Vec<_> = mom.iter().map(shape).collect();
    let nc = e.u("clients");
    let seed = |c: usize, k: usize| {
        if e.p("unseeded") != 0 {
            None
        } else {
            Some((e.p("seed") as u64).wrapping_add((c * 1_000_003 + k) as u64))
        }
    };
    let budget = e.u("budget_traj") / nc;
    let iters = match mode {
        2 => 3000,
        1 => e.u("iters").min(budget / joint).max(1),
        _ => e.u("iters").min(budget / 2).max(1),
    };
    let (alpha, relerr) = (e.opt("alpha100", 0) as f64 * 0.01, e.opt("err100", 100) as f64 * 0.01);
    // states whose reward is well enough behaved for a few dozen trajectories to show it
    let usable: Vec<usize> = (0..joint)
        .filter(|&k| {
            let (m, sd, k3, k4) = shapes[k];
            mode != 2 || (sd > 1e-3 * (m.abs() + 1e-9) && k3.abs() < 1.0 && k4 < 1.5)
        })
        .collect();
    if usable.is_empty() {
        e.count("cases_without_usable_state", 1.0);
        return Ok(());
    }
    let evals = match mode {
        1 => (budget / (iters * joint)).clamp(1, 400),
        2 => (budget as f64 * relerr * relerr / 4.0).max(1.0) as usize,
        _ => (budget / iters).clamp(1, 4000),
    };
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        let f = rw.factored(&g);
        clients(nc, |c| {
            let mut out: Vec<(usize, f64)> = vec![];
            for k in 0..evals {
                if mode == 1 {
                    let mc = MonteCarloReward::new(iters, 1e-9, 0.0, end, crit(), seed(c, k));
                    out.extend(mc.evaluate_state_space(&g, &f).into_iter().map(|(s, v)| (net.idx(&un(&s)), v)));
                } else {
                    let s = usable[(k * nc + c) % usable.len()];
                    let err = if mode == 2 { relerr * shapes[s].1 } else { 1e-9 };
                    let mc = MonteCarloReward::new(iters, err, alpha, end, crit(), seed(c, k));
                    out.push((s, mc.evaluate_state(&g, &f, &st(&net.state(s)))));
                }
            }
            out
        })
    })?;
    let est: Vec<(usize, f64)> = all_ok(res)?.into_iter().flatten().collect();
    let mut acc = vec![(0.0, 0.0); joint];
    let mut missed = 0.0;
    for &(k, v) in &est {
        simos::note(v.to_bits());
        check!(v.is_finite(), "value", "state {:?}: expected reward {}", net.state(k), v);
        acc[k].0 += v;
        acc[k].1 += 1.0;
        if (v - shapes[k].0).abs() > relerr * shapes[k].1 {
            missed += 1.0;
        }
    }
    e.count("evaluations", est.len() as f64);
    if mode == 3 {
        for &(k, v) in &est {
            let (m, _, _, _) = shapes[k];
            let r: f64 = rw.rate(&net.state(k));
            let want = if beta == 0.0 { r * end } else { r * (1.0 - (-beta * end).exp()) / beta };
            check!(
                (v - want).abs() <= 1e-9 * (want.abs() + 1e-9) && (m - want).abs() < 1e-5 * want.abs() + 1e-9,
                "constant",
                "{:?}: a constant rate {} earns {} until {} (discount {}), not {}",
                net.state(k),
                r,
                want,
                end,
                beta,
                v
            );
        }
        e.count("exact_values_compared", est.len() as f64);
        return Ok(());
    }
    if mode == 2 {
        // repeated looks at the data inflate the risk: "of the order of" the confidence level is taken as 8 times
        let n = est.len() as f64;
        let p = (8.0 * alpha).min(0.6);
        e.max(&format!("share of errors beyond the maximum, relative to alpha={}", alpha), missed / n / alpha);
        check!(
            missed <= n * p || binom_dev(missed, n, p) < 25.0,
            "stopped-early",
            "{} of {} evaluations that may stop early miss by more than the configured maximum (alpha {})",
            missed,
            n,
            alpha
        );
        e.count("early_stop_evaluations", n);
        e.count(&format!("early_stop_evaluations alpha={}", alpha), n);
        e.count(&format!("early_stop_misses alpha={}", alpha), missed);
        return Ok(());
    }
    // means
    let mut zs = vec![];
    for k in 0..joint {
        let (m, sd, k3, k4) = shapes[k];
        let n = acc[k].1 * iters as f64;
        if n == 0.0 {
            continue;
        }
        let mean = acc[k].0 / acc[k].1;
        if sd < 1e-4 * m.abs() + 1e-12 {
            check!((mean - m).abs() < 1e-3 * m.abs() + 1e-9, "mean", "{:?}: {} instead of {}", net.state(k), mean, m);
            continue;
        }
        if k3.abs() / n.sqrt() > 0.08 || k4 / n > 0.04 {
            e.count("means_skipped_too_few_trajectories", 1.0);
            continue;
        }
        let z = (mean - m) / sd * n.sqrt();
        zs.push(z);
        e.max("standard deviations off the exact mean (alarm at 9)", z.abs());
        e.count("means_compared", 1.0);
        check!(
            z.abs() < Z,
            "mean",
            "{:?}: mean of {} trajectories is {}, exactly {} (sd {}), {:.1} standard deviations off",
            net.state(k),
            n,
            mean,
            m,
            sd,
            z
        );
    }
    let independent = mode == 0 || e.p("unseeded") != 0;
    if independent && zs.len() > 1 {
        let k = zs.len() as f64;
        let z = zs.iter().sum::<f64>() / k.sqrt();
        e.max("standard deviations off, all states together (alarm at 9)", z.abs());
        check!(z.abs() < Z, "mean", "the means of {} states are {:.1} standard deviations off together", k, z);
        let v = zs.iter().map(|z| z * z).sum::<f64>();
        check!(model::stat::chi2_cdf(k, v * 0.5) < 1.0 - 1e-9, "spread", "the means of {} states scatter too much: {:.1}", k, v);
    }
    // the error of single evaluations
    if independent && iters >= 20 && est.len() >= 60 {
        let mut s = 0.0;
        let mut var = 0.0;
        let mut n = 0.0;
        for &(k, v) in &est {
            let (m, sd, _, k4) = shapes[k];
            if sd < 1e-4 * m.abs() + 1e-12 || k4 / iters as f64 > 1.0 {
                continue;
            }
            let z = (v - m) / sd * (iters as f64).sqrt();
            s += z * z;
            var += 2.0 + k4.max(0.0) / iters as f64;
            n += 1.0;
        }
        if n >= 60.0 {
            let z = (s - n) / f64::sqrt(var);
            e.max("deviation of the error of single evaluations (alarm at 14)", z.abs());
            check!(
                z.abs() < 14.0,
                "error",
                "mean squared error of {} evaluations with {} iterations is {:.2} times the variance divided by the iterations",
                n,
                iters,
                s / n
            );
        }
    }
    Ok(())
}
