//! C30: only valid intensity matrices are accepted.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::Mix;
use ndarray::Array3;
use rand::SeedableRng;
use reCTBN::params::{DiscreteStatesContinousTimeParams, Params, ParamsTrait, StateType};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::NetworkProcess;
use reCTBN::sampling::{ForwardSampler, Sampler};

pub const PROP: Prop = Prop {
    id: "C30",
    gen,
    run,
    quick: (40000, 35.0),
    thorough: (3_000_000, 300.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("len", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = histories of parameter updates of several owners (valid matrices, matrices broken at one or two places, unchecked writes, resets, edges, samplers started in between) x schedule; after every step the variable holds what the model says; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C30");
    gen_net(&mut s, r, NetGen { n: (1, 4), card: (2, 7), max_joint: 2000, max_parents: 3, styles: &[0, 1, 2, 3, 5, 6, 8] });
    if r.below(12) == 0 {
        s.set("bigc", *r.pick(&[9, 17, 33]));
        s.set("style", 1);
    }
    s.set("len", r.range(1, if t { 200 } else { 60 }));
    s.set("hseed", (r.next() >> 30) as i64);
    s.set("clients", *r.pick(&[1, 1, 2, 3]));
    s.set("workers", r.range(1, 4));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, 200_000);
    s
}

type Cim = Vec<Vec<Vec<f64>>>;
/// rows of non-negative intensities over several magnitudes, some of them 0
fn valid(r: &mut Mix, nb: usize, c: usize) -> Cim {
    const SCALES: [f64; 5] = [1.0, 1e-3, 1e3, 1e-6, 1e5];
    let whole = SCALES[r.below(5) as usize];
    let mixed = r.below(3) == 0;
    let holes = r.below(3) == 0;
    (0..nb)
        .map(|_| {
            (0..c)
                .map(|x| {
                    let scale = if mixed { SCALES[r.below(5) as usize] } else { whole };
                    let mut row: Vec<f64> = (0..c)
                        .map(|y| {
                            if y == x || holes && r.below(2) == 0 {
                                0.0
                            } else {
                                scale * (0.05 + r.f()) / c as f64
                            }
                        })
                        .collect();
                    if row.iter().all(|q| *q == 0.0) {
                        row[(x + 1) % c] = scale;
                    }
                    row[x] = -row.iter().sum::<f64>();
                    row
                })
                .collect()
        })
        .collect()
}
const BROKEN: [&str; 11] = [
    "row sum", "row sum", "zero row", "positive diagonal", "negative intensity", "nan", "infinite", "shape", "shape",
    "cancelling rows", "cancelling blocks",
];
/// break a valid matrix at one place
fn broken(r: &mut Mix, m: &Cim, kind: usize) -> Array3<f64> {
    let mut m = m.clone();
    let (nb, c) = (m.len(), m[0].len());
    let (u, x) = (r.below(nb as u64) as usize, r.below(c as u64) as usize);
    let y = (x + 1 + r.below(c as u64 - 1) as usize) % c;
    let size = -m[u][x][x];
    // the tolerance is absolute: it does not grow with the intensities
    let off = [size.max(1.0), 1.0][r.below(2) as usize] * [1e-6, 1e-4, 1e-2, 1.0][r.below(4) as usize];
    match kind {
        0 => m[u][x][y] += off,
        1 => m[u][x][x] -= off,
        2 => m[u][x] = vec![0.0; c],
        3 => {
            // the row still sums to 0
            m[u][x] = vec![0.0; c];
            m[u][x][x] = size;
            m[u][x][y] = -size;
        }
        4 => {
            let d = m[u][x][y] + size * (0.01 + r.f());
            m[u][x][y] -= d;
            if c > 2 && r.below(2) == 0 {
                // another successor makes up for it
                let z = (0..c).find(|&z| z != x && z != y).unwrap();
                m[u][x][z] += d;
            } else {
                m[u][x][x] += d;
                if m[u][x][x] >= 0.0 {
                    m[u][x][x] = -size;
                    let rest: f64 = (0..c).filter(|&z| z != y && z != x).map(|z| m[u][x][z]).sum();
                    if rest == 0.0 {
                        m[u][x][y] = -size;
                    }
                }
            }
        }
        5 => m[u][x][if r.below(2) == 0 { x } else { y }] = f64::NAN,
        6 => {
            m[u][x][x] = f64::NEG_INFINITY;
            m[u][x][y] = f64::INFINITY;
        }
        7 => {
            // valid over a domain of another size
            let c2 = if c > 2 && r.below(2) == 0 { c - 1 } else { c + 1 };
            return cim_array(&valid(r, nb, c2));
        }
        9 | 10 => {
            // the errors of two rows (of one block, of two blocks) cancel
            let (v, z) = if kind == 10 && nb > 1 {
                ((u + 1 + r.below(nb as u64 - 1) as usize) % nb, if r.below(2) == 0 { x } else { y })
            } else {
                (u, y)
            };
            let d = off;
            m[u][x][y] += d;
            m[v][z][z] -= d;
        }
        _ => {
            let (a, b) = if r.below(2) == 0 { (c, c + 1) } else { (c + 1, c) };
            return Array3::from_shape_fn((nb, a, b), |(u, x, y)| {
                if y == x {
                    -((b - 1) as f64)
                } else if u < nb {
                    1.0
                } else {
                    0.0
                }
            });
        }
    }
    cim_array(&m)
}
fn inner(p: &mut Params) -> &mut DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
fn bits(a: &Option<Array3<f64>>) -> Option<(Vec<usize>, Vec<u64>)> {
    a.as_ref().map(|a| (a.shape().to_vec(), a.iter().map(|x| x.to_bits()).collect()))
}

fn history(e: &Env, c: usize) -> Result<[f64; 4], crate::exec::Fail> {
    let net = net_of(e.spec);
    let mut r = Mix(simos::mix2(e.p("hseed") as u64, c as u64));
    let mut g = build_structure(&net);
    // the parameters as they should be, and whether they were checked
    let mut held: Vec<Option<(Array3<f64>, bool)>> = vec![None; net.n()];
    let mut done = [0.0; 4];
    for k in 0..e.u("len") {
        let i = r.below(net.n() as u64) as usize;
        let (nb, card) = (net.nu(i), net.card[i]);
        let m = valid(&mut r, nb, card);
        let what;
        match r.below(12) {
            0..=3 => {
                what = "a valid matrix".to_string();
                let a = cim_array(&m);
                let x = inner(g.get_node_mut(i)).set_cim(a.clone());
                check!(x.is_ok(), "rejected", "step {}: variable {}: {:?} for {:?}", k, i, x, a);
                held[i] = Some((a, true));
                done[0] += 1.0;
            }
            4..=8 => {
                let kind = r.below(BROKEN.len() as u64) as usize;
                what = format!("a broken matrix ({})", BROKEN[kind]);
                let a = broken(&mut r, &m, kind);
                let unchecked = r.below(5) == 0;
                if unchecked {
                    inner(g.get_node_mut(i)).set_cim_unchecked(a.clone());
                    held[i] = Some((a, false));
                } else {
                    let x = inner(g.get_node_mut(i)).set_cim(a.clone());
                    check!(x.is_err(), "accepted", "step {}: variable {}: {} is accepted: {:?}", k, i, what, a);
                    held[i] = None;
                }
                done[1] += 1.0;
            }
            9 => {
                what = "an unchecked write".to_string();
                let a = cim_array(&m);
                inner(g.get_node_mut(i)).set_cim_unchecked(a.clone());
                held[i] = Some((a, true));
            }
            10 => {
                what = "a reset".to_string();
                g.get_node_mut(i).reset_params();
                held[i] = None;
            }
            _ => {
                what = "sampling".to_string();
                if held.iter().all(|h| matches!(h, Some((_, true)))) {
                    let mut s = ForwardSampler::new(&g, Some(r.next()), None);
                    for _ in 0..2 {
                        let mut last = 0.0;
                        for x in s.by_ref().take(8) {
                            check!(x.t >= last && x.t.is_finite(), "time", "step {}: time {:e} after {:e}", k, x.t, last);
                            last = x.t;
                        }
                        s.reset();
                    }
                    done[2] += 1.0;
                } else if let Some(i) = held.iter().position(|h| h.is_none()) {
                    // without parameters nothing can be drawn
                    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(k as u64);
                    let p = g.get_node(i);
                    let (a, b) = (p.get_random_residence_time(0, 0, &mut rng), p.get_random_state(0, 0, &mut rng));
                    check!(a.is_err() && b.is_err(), "kept", "step {}: variable {} has no parameters and yields {:?} {:?}", k, i, a, b);
                }
            }
        }
        for (j, h) in held.iter().enumerate() {
            let p = inner(g.get_node_mut(j));
            let want = h.as_ref().map(|x| x.0.clone());
            check!(
                bits(p.get_cim()) == bits(&want),
                "kept",
                "step {}: after {} for variable {}, variable {} holds {:?} instead of {:?}",
                k,
                what,
                i,
                j,
                p.get_cim(),
                want
            );
            let (v, ok) = (p.validate_params(), matches!(h, Some((_, true))));
            check!(
                v.is_ok() == ok,
                if ok { "rejected" } else { "accepted" },
                "step {}: after {} for variable {}: validation of variable {} says {:?} about {:?}",
                k,
                what,
                i,
                j,
                v,
                want
            );
            done[3] += 1.0;
        }
    }
    // the single process has the same rules
    let card = net.card[0];
    let m = valid(&mut r, 1, card);
    let kind = r.below(BROKEN.len() as u64) as usize;
    let mut ctmp = CtmpProcess::new();
    ctmp.add_node(param("x", card)).unwrap();
    let x = inner(ctmp.get_node_mut(0)).set_cim(broken(&mut r, &m, kind));
    check!(x.is_err() && get_cim(ctmp.get_node(0)).is_none(), "accepted", "single process: {} is accepted", BROKEN[kind]);
    let x = inner(ctmp.get_node_mut(0)).set_cim(cim_array(&m));
    check!(x.is_ok() && get_cim(ctmp.get_node(0)).is_some(), "rejected", "single process: {:?} for {:?}", x, m);
    let t = ForwardSampler::new(&ctmp, Some(1), Some(vec![StateType::Discrete(0)])).nth(1).unwrap();
    check!(t.t.is_finite(), "time", "single process: time {}", t.t);
    Ok(done)
}

fn run(e: &Env) -> Res {
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        clients(e.u("clients"), |c| history(e, c))
    })?;
    for x in all_ok(res)? {
        let d = x?;
        for (name, v) in ["valid_updates", "wfault:invalid_matrix", "samplers_started", "states_compared"].iter().zip(d) {
            e.count(name, v);
        }
        simos::note(d[3] as u64);
    }
    let _ = CtbnNetwork::new();
    Ok(())
}
