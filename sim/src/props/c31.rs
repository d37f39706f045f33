//! C31: parent configurations and parameter blocks correspond one to one.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::{Mix, Net};
use ndarray::Array1;
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::sampling::ForwardSampler;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C31",
    gen,
    run,
    quick: (40000, 35.0),
    thorough: (3_000_000, 300.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("events", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = two networks over the same variables x simulated histories whose states several threads look up in both networks and in custom parent sets, while the structure of one is edited between histories x schedule; every block of variables with up to 2000 parent configurations is enumerated; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C31");
    let shape = match r.below(6) {
        0 => NetGen { n: (7, 20), card: (2, 4), max_joint: usize::MAX, max_parents: 3, styles: &[0, 1] },
        1 => NetGen { n: (1, 5), card: (5, 7), max_joint: usize::MAX, max_parents: 4, styles: &[0, 1] },
        _ => NetGen { n: (1, 7), card: (2, 5), max_joint: usize::MAX, max_parents: 6, styles: &[0, 1, 3] },
    };
    gen_net(&mut s, r, shape);
    widen(&mut s, r, usize::MAX);
    let crowded = crowd(&mut s, r, 30);
    s.set("events", r.range(1, if t { 300 } else { 60 }));
    s.set("rounds", r.range(1, 3));
    s.set("hseed", (r.next() >> 30) as i64);
    s.set("clients", *r.pick(&[1, 1, 2, 3]));
    s.set("workers", r.range(1, 4));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, 300_000);
    s
}

fn look_up(net: &Net, g: &CtbnNetwork, s: &[usize], what: &str) -> Res {
    let x = st(s);
    for i in 0..net.n() {
        let (a, b) = (g.get_param_index_network(i, &x), net.u(i, s));
        check!(a == b, "block", "{}: state {:?}: variable {} with parents {:?} has block {} instead of {}", what, s, i, net.parents[i], a, b);
    }
    Ok(())
}
/// all parent configurations of every variable, with other values elsewhere
fn enumerate(net: &Net, g: &CtbnNetwork, r: &mut Mix, what: &str) -> Result<f64, crate::exec::Fail> {
    let mut seen = 0.0;
    for i in 0..net.n() {
        if net.nu(i) > 2000 {
            continue;
        }
        let mut hit = vec![false; net.nu(i)];
        for b in 0..net.nu(i) {
            let mut s: Vec<usize> = net.card.iter().map(|&c| r.below(c as u64) as usize).collect();
            let mut k = b;
            for &p in &net.parents[i] {
                s[p] = k % net.card[p];
                k /= net.card[p];
            }
            let a = g.get_param_index_network(i, &st(&s));
            check!(a < hit.len(), "range", "{}: variable {} parents {:?}: block {} of {}", what, i, net.parents[i], a, hit.len());
            check!(!hit[a], "shared", "{}: variable {} parents {:?}: block {} belongs to two configurations", what, i, net.parents[i], a);
            check!(a == b, "order", "{}: variable {} parents {:?}: state {:?} has block {} instead of {}", what, i, net.parents[i], s, a, b);
            hit[a] = true;
            seen += 1.0;
        }
    }
    Ok(seen)
}

fn run(e: &Env) -> Res {
    let (card, mut parents) = shape_of(e.spec);
    trim(&card, &mut parents, 40_000);
    let net = Net::with_parents(&card, parents, e.p("style"), e.p("rates") as u64);
    // the same variables, the parents of variable i are those of its neighbour
    let n = net.n();
    let mut other = net.clone();
    for i in 0..n {
        other.parents[i] = net.parents[(i + 1) % n].iter().map(|&p| (p + n - 1) % n).filter(|&p| p != i).collect();
        other.parents[i].sort();
        other.parents[i].dedup();
    }
    trim(&net.card, &mut other.parents, 20_000);
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        let g2 = build_structure(&other);
        clients(e.u("clients"), |c| -> Result<[f64; 2], crate::exec::Fail> {
            let mut r = Mix(simos::mix2(e.p("hseed") as u64, c as u64));
            let mut done = [0.0; 2];
            // a network of this client whose structure changes
            let mut mine = Net { parents: vec![vec![]; n], ..net.clone() };
            let mut gm = build_structure(&mine);
            for round in 0..e.u("rounds") {
                for (k, x) in ForwardSampler::new(&g, Some(r.next()), None).take(e.u("events")).enumerate() {
                    let s = un(&x.state);
                    let at = format!("client {} round {} event {}", c, round, k);
                    look_up(&net, &g, &s, &at)?;
                    look_up(&other, &g2, &s, &at)?;
                    look_up(&mine, &gm, &s, &at)?;
                    // any set of variables
                    let most = if r.below(4) == 0 { 62.0 } else { 18.0 };
                    let mut bits = 0.0;
                    let mut set: BTreeSet<usize> = BTreeSet::new();
                    for p in 0..n {
                        if r.below(3) == 0 && bits + (net.card[p] as f64).log2() < most {
                            set.insert(p);
                            bits += (net.card[p] as f64).log2();
                        }
                    }
                    let v: Vec<usize> = set.iter().copied().collect();
                    let (a, b) = (g.get_param_index_from_custom_parent_set(&x.state, &set), crate::learn::block(&net.card, &v, &s));
                    check!(a == b, "custom", "{}: state {:?}: configuration of {:?} is {} instead of {}", at, s, v, a, b);
                    let dom = Array1::from_iter(v.iter().map(|&p| net.card[p]));
                    let back = CtbnNetwork::idx_to_state(&dom, b);
                    check!(
                        back.iter().zip(&v).all(|(x, &p)| *x == s[p]),
                        "state",
                        "{}: configuration {} of {:?} reads {:?}, the state is {:?}",
                        at,
                        b,
                        v,
                        back,
                        s
                    );
                    done[0] += (3 * n + 2) as f64;
                }
                done[1] += enumerate(&net, &g, &mut r, "network")?;
                done[1] += enumerate(&other, &g2, &mut r, "other network")?;
                done[1] += enumerate(&mine, &gm, &mut r, "edited network")?;
                // edit
                if n > 1 {
                    for _ in 0..1 + r.below(3) {
                        let p = r.below(n as u64) as usize;
                        let i = (p + 1 + r.below(n as u64 - 1) as usize) % n;
                        if !mine.parents[i].contains(&p) && mine.nu(i) * mine.card[p] <= 1000 {
                            mine.parents[i].push(p);
                            mine.parents[i].sort();
                            gm.add_edge(p, i);
                        }
                    }
                }
            }
            Ok(done)
        })
    })?;
    for x in all_ok(res)? {
        let d = x?;
        e.count("look_ups_compared", d[0]);
        e.count("configurations_enumerated", d[1]);
        simos::note(d[1] as u64);
    }
    Ok(())
}
