//! C15: random graphs have the requested density and shape.
use super::*;
use crate::glue::*;
use crate::learn::{key, mask, parent_masks, Mask};
use crate::ops::*;
use crate::spec::gen_sched;
use model::law::TH;
use model::net::Mix;
use model::stat::*;
use reCTBN::process::NetworkProcess;
use reCTBN::tools::{RandomGraphGenerator, UniformGraphGenerator};

pub const PROP: Prop = Prop {
    id: "C15",
    gen,
    run,
    quick: (6000, 45.0),
    thorough: (500_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("fresh", Shrink::Int(0)),
        ("graphs", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = number of variables x previous edges x density x stream of random words (with extreme draws when density is 0 or 1 or when only the shape is judged) x number of successive and of fresh generators x schedule of concurrent callers; every ordered pair, every two pairs of one graph and of successive graphs are tested against the exact binomial law; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C15");
    let big = r.below(6) == 0;
    gen_net(
        &mut s,
        r,
        NetGen { n: if big { (7, 20) } else { (1, 6) }, card: (2, 4), max_joint: usize::MAX, max_parents: 3, styles: &[1] },
    );
    let crowded = crowd(&mut s, r, 25);
    let n = s.get("n");
    // density in units of 1e-4
    let d = match r.below(if crowded { 4 } else { 10 }) {
        0 => 0,
        1 => 10_000,
        2 => *r.pick(&[1, 10, 100, 500, 9500, 9900, 9990, 9999]),
        3 if crowded => *r.pick(&[15, 45, 55, 196, 203, 9804, 9945]),
        3 => *r.pick(&[2500, 5000, 7500]),
        _ => r.range(200, 9800),
    };
    s.set("density", d);
    let exact = d == 0 || d == 10_000;
    let extreme = r.below(if exact { 2 } else { 8 }) == 0;
    s.set("extreme", extreme as i64);
    let words = (if t { 3 } else { 1 }) * r.range(4_000, 25_000);
    let words = if crowded { r.range(60_000, 400_000) } else { words };
    let graphs = if exact || extreme { r.range(1, 60) } else { (words / (n * n).max(2)).clamp(20, 6000) };
    s.set("graphs", graphs);
    s.set("fresh", if exact || extreme { r.range(0, 6) } else { *r.pick(&[0, 0, graphs / 3, graphs]) });
    s.set("unseeded", (r.below(3) == 0) as i64);
    s.set("seed", (r.next() >> 30) as i64);
    s.set("rebuild", (r.below(3) == 0) as i64);
    s.set("clients", if crowded { 1 } else { *r.pick(&[1, 1, 1, 2, 3]) });
    if crowded {
        s.set("fresh", r.range(0, 1));
    }
    gen_env(&mut s, r);
    s.set("logs", (r.below(10) == 0) as i64);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    if extreme {
        for _ in 0..r.range(1, 40) {
            let n0 = r.below((graphs * n * n) as u64 + 1);
            let arg = match r.below(5) {
                0 | 1 => 0,
                2 | 3 => 1 + r.below(2) * (1 << r.range(1, 62)),
                _ => u64::MAX - r.below(1 << 13),
            };
            let k = if r.below(4) == 0 { r.range(2, 12) as u64 } else { 1 };
            for j in 0..k {
                s.faults.push(Fault { kind: Fk::Draw, n: n0 + j, arg });
            }
        }
    }
    s.sched = gen_sched(r, (graphs * n * n * 700) as u64);
    s
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let n = net.n();
    let d = e.p("density") as f64 * 1e-4;
    let seed = |k: usize| if e.p("unseeded") != 0 { None } else { Some((e.p("seed") as u64).wrapping_add(k as u64)) };
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        clients(e.u("clients"), |c| {
            let mut g = build(&net);
            let mut r = Mix(e.p("seed") as u64 ^ c as u64);
            let one = |gen: &mut UniformGraphGenerator, g: &mut reCTBN::process::ctbn::CtbnNetwork| {
                gen.generate_graph(g);
                let m = parent_masks(g);
                let mut k = vec![0 as Mask; n];
                for p in 0..n {
                    for x in g.get_children_set(p) {
                        if x < n {
                            k[x] |= 1 << p;
                        }
                    }
                }
                check!(m == k, "mirror", "parents {:x?} but children say {:x?}", m, k);
                check!(crate::learn::same_nodes(g, &net.card), "nodes", "the variables changed");
                Ok(m)
            };
            let mut gen: UniformGraphGenerator = RandomGraphGenerator::new(d, seed(c << 40));
            let mut all = vec![];
            for _ in 0..e.u("graphs") {
                if e.p("rebuild") != 0 {
                    g = build(&net);
                    for _ in 0..r.below(3) {
                        let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                        if a != b {
                            g.add_edge(a, b);
                        }
                    }
                }
                all.push(one(&mut gen, &mut g)?);
            }
            let mut fresh = vec![];
            for k in 0..e.u("fresh") {
                let mut gen: UniformGraphGenerator = RandomGraphGenerator::new(d, seed((c << 40) + 1 + k));
                fresh.push(one(&mut gen, &mut g)?);
            }
            Ok((all, fresh))
        })
    })?;
    let mut series: Vec<(&str, Vec<Vec<Mask>>)> = vec![];
    for x in all_ok(res)? {
        let (a, b) = x?;
        series.push(("one generator", a));
        series.push(("fresh generators", b));
    }
    let mut worst: f64 = 0.0;
    for (what, gs) in &series {
        e.count("graphs", gs.len() as f64);
        for g in gs {
            simos::note(g.iter().fold(0u64, |a, m| a.wrapping_mul(31).wrapping_add(key(*m))));
            for (c, m) in g.iter().enumerate() {
                check!(m >> c & 1 == 0, "self-loop", "variable {} is its own parent", c);
                if d == 0.0 {
                    check!(*m == 0, "exact", "density 0: variable {} has parents {:b}", c, m);
                }
                if d == 1.0 {
                    let full = mask((0..n).filter(|&p| p != c));
                    check!(*m == full, "exact", "density 1: variable {} has parents {:b} only", c, m);
                }
            }
        }
        if e.p("extreme") != 0 || d == 0.0 || d == 1.0 || gs.len() < 20 || n < 2 {
            continue;
        }
        // bits[pair] over the graphs
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|p| (0..n).filter(move |&c| c != p).map(move |c| (p, c))).collect();
        let l = gs.len();
        let w = l.div_ceil(64);
        let bits: Vec<Vec<u64>> = pairs
            .iter()
            .map(|&(p, c)| {
                let mut v = vec![0u64; w];
                for (k, g) in gs.iter().enumerate() {
                    v[k / 64] |= ((g[c] >> p & 1) as u64) << (k % 64);
                }
                v
            })
            .collect();
        let ones = |v: &[u64]| v.iter().map(|x| x.count_ones()).sum::<u32>() as f64;
        let both = |a: &[u64], b: &[u64]| a.iter().zip(b).map(|(x, y)| (x & y).count_ones()).sum::<u32>() as f64;
        // shifted by one graph
        let shift = |v: &[u64]| -> Vec<u64> {
            (0..w).map(|i| v[i] >> 1 | if i + 1 < w { v[i + 1] << 63 } else { 0 }).collect()
        };
        let nx: Vec<Vec<u64>> = bits.iter().map(|v| shift(v)).collect();
        let lf = l as f64;
        let mut total = 0.0;
        for (i, b) in bits.iter().enumerate() {
            let k = ones(b);
            total += k;
            let dev = binom_dev(k, lf, d);
            worst = worst.max(dev);
            check!(
                dev < TH,
                "density",
                "{}: {}->{} present in {} of {} graphs, density {}",
                what,
                pairs[i].0,
                pairs[i].1,
                k,
                l,
                d
            );
            // too many pairs of pairs
            for (j, b2) in bits.iter().enumerate().take(if n > 24 { 0 } else { usize::MAX }) {
                if j > i {
                    let k = both(b, b2);
                    let dev = binom_dev(k, lf, d * d);
                    worst = worst.max(dev);
                    check!(
                        dev < TH,
                        "dependence",
                        "{}: {:?} and {:?} together in {} of {} graphs, density {}",
                        what,
                        pairs[i],
                        pairs[j],
                        k,
                        l,
                        d
                    );
                }
                // pairs of successive graphs overlap: two independent halves
                let k = both(b, &nx[j]);
                let dev = 0.5 * binom_dev(k, lf - 1.0, d * d);
                worst = worst.max(dev);
                check!(
                    dev < TH,
                    "memory",
                    "{}: {:?} followed by {:?} in the next graph {} times of {}, density {}",
                    what,
                    pairs[i],
                    pairs[j],
                    k,
                    l,
                    d
                );
            }
        }
        let dev = binom_dev(total, lf * pairs.len() as f64, d);
        worst = worst.max(dev);
        check!(dev < TH, "density", "{}: {} edges in {} graphs over {} variables, density {}", what, total, l, n, d);
        // number of edges per graph: variance of a binomial
        let np = pairs.len() as f64;
        if lf >= 200.0 {
            let v: f64 = gs
                .iter()
                .map(|g| {
                    let k = g.iter().map(|m| m.count_ones()).sum::<u32>() as f64;
                    (k - np * d).powi(2)
                })
                .sum::<f64>()
                / (np * d * (1.0 - d));
            let k4 = 2.0 + (1.0 - 6.0 * d * (1.0 - d)) / (np * d * (1.0 - d));
            let z = (v - lf) / (lf * k4).sqrt();
            if np * d * (1.0 - d) > 0.5 {
                e.max("edge count variance, standard deviations off (alarm at 9)", z.abs());
                check!(z.abs() < 9.0, "dispersion", "{}: the number of edges scatters {:.2} times as much as it should", what, v / lf);
            }
        }
        e.count("graphs_tested", lf);
    }
    e.max("deviation exponent (alarm at 25)", worst);
    Ok(())
}
