//! C16: random parameters are valid and follow the requested interval.
use super::*;
use crate::glue::*;
use crate::learn::parent_masks;
use crate::ops::*;
use crate::spec::gen_sched;
use model::law::*;
use model::stat::*;
use reCTBN::params::ParamsTrait;
use reCTBN::process::NetworkProcess;
use reCTBN::tools::{RandomParametersGenerator, UniformParametersGenerator};

pub const PROP: Prop = Prop {
    id: "C16",
    gen,
    run,
    quick: (6000, 45.0),
    thorough: (500_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("fresh", Shrink::Int(0)),
        ("rounds", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = network structure x interval x stream of random words (in a part of the cases with draws forced to the extremes) x number of successive and of fresh generators x schedule of concurrent callers; every matrix is validated, exit rates and successor shares of all rows are tested against their exact law; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C16");
    let shape = match r.below(6) {
        0 => NetGen { n: (6, 11), card: (2, 4), max_joint: usize::MAX, max_parents: 3, styles: &[1] },
        1 => NetGen { n: (1, 2), card: (2, 7), max_joint: usize::MAX, max_parents: 1, styles: &[1] },
        _ => NetGen { n: (1, 5), card: (2, 5), max_joint: usize::MAX, max_parents: 4, styles: &[1] },
    };
    gen_net(&mut s, r, shape);
    widen(&mut s, r, usize::MAX);
    let crowded = crowd(&mut s, r, 40);
    let extreme = i % 3 == 2;
    s.set("extreme", extreme as i64);
    // interval in thousandths
    let lo = if extreme { *r.pick(&[1, 500, 1000, 7300]) } else { *r.pick(&[0, 0, 1, 250, 1000, 3000, 50_000]) };
    s.set("lo", lo);
    s.set("hi", lo + *r.pick(&[1, 100, 1000, 5000, 40_000, 1_000_000]));
    s.set("words", if extreme { r.range(10, 600) } else { (if t { 3 } else { 1 }) * r.range(1_000, 40_000) });
    s.set("rounds", r.range(1, 400));
    s.set("fresh", *r.pick(&[0, 0, 3, 60]));
    s.set("unseeded", (r.below(3) == 0) as i64);
    s.set("seed", (r.next() >> 30) as i64);
    s.set("clients", *r.pick(&[1, 1, 1, 2, 3]));
    gen_env(&mut s, r);
    s.set("logs", (r.below(10) == 0) as i64);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    if extreme {
        let span = s.get("words") as u64 + 1;
        for _ in 0..r.range(1, 60) {
            let n0 = r.below(span);
            let arg = match r.below(6) {
                0..=2 => 0,
                3 | 4 => u64::MAX - r.below(1 << 13),
                _ => 1 << r.range(1, 63),
            };
            let k = match r.below(6) {
                0 => r.range(2, 8) as u64,
                1 => r.range(8, 60) as u64,
                _ => 1,
            };
            for j in 0..k {
                s.faults.push(Fault { kind: Fk::Draw, n: n0 + j, arg });
            }
        }
    }
    s.sched = gen_sched(r, s.get("words") as u64 * 700);
    s
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let n = net.n();
    let (lo, hi) = (e.p("lo") as f64 * 1e-3, e.p("hi") as f64 * 1e-3);
    let masks: Vec<crate::learn::Mask> = net.parents.iter().map(|p| crate::learn::mask(p.iter().copied())).collect();
    let per: usize = (0..n).map(|i| net.nu(i) * net.card[i] * (net.card[i] + 1)).sum();
    let rounds = (e.u("words") / per).clamp(1, e.u("rounds"));
    let fresh = e.u("fresh").min(rounds);
    let seed = |k: usize| if e.p("unseeded") != 0 { None } else { Some((e.p("seed") as u64).wrapping_add(k as u64)) };
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        clients(e.u("clients"), |c| {
            let mut g = build_structure(&net);
            let one = |gen: &mut UniformParametersGenerator, g: &mut reCTBN::process::ctbn::CtbnNetwork| {
                gen.generate_parameters(g);
                let mut v = vec![];
                for i in 0..n {
                    let p = g.get_node(i);
                    if let Err(x) = p.validate_params() {
                        return crate::exec::fail("invalid", format!("variable {}: {:?}", i, x));
                    }
                    let m = get_cim(p).unwrap();
                    check!(
                        m.len() == net.nu(i) && m.iter().all(|b| b.len() == net.card[i]),
                        "shape",
                        "variable {}: {} blocks, {} parent configurations",
                        i,
                        m.len(),
                        net.nu(i)
                    );
                    v.push(m);
                }
                check!(parent_masks(g) == masks, "edges", "the edges changed");
                check!(crate::learn::same_nodes(g, &net.card), "nodes", "the variables changed");
                Ok(v)
            };
            let mut gen: UniformParametersGenerator = RandomParametersGenerator::new(lo..hi, seed(c << 40));
            let mut all = vec![];
            for _ in 0..rounds {
                all.push(one(&mut gen, &mut g)?);
            }
            let mut f = vec![];
            for k in 0..fresh {
                let mut gen: UniformParametersGenerator = RandomParametersGenerator::new(lo..hi, seed((c << 40) + 1 + k));
                f.push(one(&mut gen, &mut g)?);
            }
            Ok((all, f))
        })
    })?;
    let mut series = vec![];
    for x in all_ok(res)? {
        let (a, b) = x?;
        series.push(("one generator", a));
        series.push(("fresh generators", b));
    }
    let mut ks_max: f64 = 0.0;
    let mut z_max: f64 = 0.0;
    let mut d_max: f64 = 0.0;
    for (what, gs) in &series {
        // rows in the order of generation
        let mut rate: Vec<f64> = vec![];
        let mut share: Vec<f64> = vec![];
        let mut per_row: Vec<Vec<f64>> = vec![];
        let mut shares: Vec<Vec<Vec<f64>>> = vec![];
        for g in gs {
            let mut ri = 0;
            for (i, m) in g.iter().enumerate() {
                for (u, b) in m.iter().enumerate() {
                    for (x, row) in b.iter().enumerate() {
                        let out: f64 = (0..row.len()).filter(|&y| y != x).map(|y| row[y]).sum();
                        let at = || format!("{}: variable {} parents {} row {}: {:?}", what, i, u, x, row);
                        check!(row.iter().all(|q| q.is_finite()), "finite", "{}", at());
                        check!((0..row.len()).all(|y| y == x || row[y] >= 0.0), "negative", "{}", at());
                        check!(row[x] < 0.0, "diagonal", "{}", at());
                        check!((row[x] + out).abs() <= 1e-10 * (1.0 + out), "row-sum", "{}", at());
                        check!(
                            out >= lo - 1e-10 * (1.0 + lo) && out <= hi + 1e-10 * (1.0 + hi),
                            "interval",
                            "{} leaves {}..{}",
                            at(),
                            lo,
                            hi
                        );
                        e.count("rows", 1.0);
                        rate.push((out - lo) / (hi - lo));
                        // share of the first successor
                        let f = row[if x == 0 { 1 } else { 0 }] / out;
                        share.push(f);
                        if per_row.len() <= ri {
                            per_row.push(vec![]);
                            shares.push(vec![]);
                        }
                        per_row[ri].push((out - lo) / (hi - lo));
                        if row.len() > 2 {
                            shares[ri].push((0..row.len()).filter(|&y| y != x).map(|y| row[y] / out).collect());
                        }
                        ri += 1;
                    }
                }
            }
        }
        for (i, v) in rate.iter().enumerate() {
            if i % 16 == 0 {
                simos::note(v.to_bits());
            }
        }
        if e.p("extreme") != 0 {
            continue;
        }
        if rate.len() >= 100 {
            // neighbouring rows, and the same row of the next round
            let per = per_row.len();
            for lag in [1, 2, per, 2 * per] {
                if lag < rate.len() {
                    let m = rate.len() - lag;
                    for (what2, a, b) in
                        [("exit rates", &rate[..m], &rate[lag..]), ("exit rate and shares", &rate[..m], &share[lag..])]
                    {
                        let z = corr_z(a, b);
                        z_max = z_max.max(z.abs());
                        check!(z.abs() < 8.0, "dependence", "{}: {} of rows {} apart are correlated, z={:.1}", what, what2, lag, z);
                    }
                }
            }
            let z = corr_z(&rate, &share);
            z_max = z_max.max(z.abs());
            check!(z.abs() < 8.0, "dependence", "{}: exit rate and successor share of a row are correlated, z={:.1}", what, z);
            let k = ks_uniform(&mut rate.clone());
            ks_max = ks_max.max(k);
            check!(k < KS_TH, "uniform", "{}: exit rates are not uniform in {}..{}: sqrt(n) D = {:.2}, n = {}", what, lo, hi, k, rate.len());
            e.count("tested_rows", rate.len() as f64);
        }
        for ri in 0..per_row.len() {
            if per_row[ri].len() >= 60 {
                let k = ks_uniform(&mut per_row[ri]);
                ks_max = ks_max.max(k);
                check!(k < KS_TH, "uniform", "{}: exit rates of row {} are not uniform in {}..{}: sqrt(n) D = {:.2}", what, ri, lo, hi, k);
            }
        }
        // rows with the same number of successors
        for (name, groups) in [
            ("row", (0..per_row.len()).map(|r| vec![r]).collect::<Vec<_>>()),
            (
                "all rows with as many successors as row",
                {
                    let mut by: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
                    for r in 0..per_row.len() {
                        by.entry(shares[r].first().map_or(0, |x| x.len())).or_default().push(r);
                    }
                    by.into_values().collect()
                },
            ),
        ] {
            for (ri, gr) in groups.iter().enumerate() {
                let v: Vec<&Vec<f64>> = gr.iter().flat_map(|&r| shares[r].iter()).collect();
                if v.len() < 60 {
                    continue;
                }
                let k = v[0].len();
                let mut largest = vec![0.0; k];
                let mut smallest = vec![0.0; k];
                for s in &v {
                    let best = (0..k).max_by(|&a, &b| s[a].total_cmp(&s[b])).unwrap();
                    let least = (0..k).min_by(|&a, &b| s[a].total_cmp(&s[b])).unwrap();
                    largest[best] += 1.0;
                    smallest[least] += 1.0;
                }
                let d = uniform_counts(&largest).max(uniform_counts(&smallest));
                d_max = d_max.max(d);
                check!(
                    d < TH,
                    "favoured",
                    "{}: {} {}: the largest intensity goes to the successors {:?} times, the smallest {:?} times",
                    what,
                    name,
                    ri,
                    largest,
                    smallest
                );
                // shares do not follow those of the next row of the group
                let a: Vec<f64> = v[..v.len() - 1].iter().map(|s| s[0]).collect();
                let b: Vec<f64> = v[1..].iter().map(|s| s[0]).collect();
                let z = corr_z(&a, &b);
                z_max = z_max.max(z.abs());
                check!(z.abs() < 8.0, "dependence", "{}: successor shares of {} {} follow each other, z={:.1}", what, name, ri, z);
                // not all the same
                let var = a.iter().map(|x| (x - 1.0 / k as f64).powi(2)).sum::<f64>() / a.len() as f64;
                check!(var > 0.02 / (k * k) as f64, "constant", "{}: successor shares of {} {} do not vary", what, name, ri);
                e.count("tested_shares", v.len() as f64);
            }
        }
    }
    e.max("sqrt(n) KS distance (alarm at 3.6)", ks_max);
    e.max("correlation z (alarm at 8)", z_max);
    e.max("favoured successor exponent (alarm at 25)", d_max);
    Ok(())
}
