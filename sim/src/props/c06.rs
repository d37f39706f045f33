//! C06: generated datasets are complete recordings up to the end time.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::props::c02::{uniform_states, ST};
use crate::spec::gen_sched;
use model::law::*;
use model::net::Net;
use model::stat::*;
use reCTBN::tools::*;
use simos::{Fault, Fk};

pub const PROP: Prop = Prop {
    id: "C06",
    gen,
    run,
    quick: (2200, 60.0),
    thorough: (200_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("trajs", Shrink::Int(0)),
        ("warm", Shrink::Int(0)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = network x number of trajectories x end time x seed or entropy x extreme draws x schedule of concurrent generators; every row is checked, and (without injected draws) the censored histories are tested against the exact law; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C06");
    let faulty = i % 4 == 3;
    let small = r.below(2) == 0;
    gen_net(
        &mut s,
        r,
        NetGen {
            n: if small { (1, 3) } else { (1, 7) },
            card: (2, 4),
            max_joint: if small { 12 } else { 2000 },
            max_parents: 3,
            styles: if faulty { &[0, 1, 2, 3, 5, 7] } else { ST },
        },
    );
    widen(&mut s, r, 5000);
    let crowded = crowd(&mut s, r, 40);
    // expected number of events per trajectory, in thousandths
    let ev = *r.pick(&[1, 30, 300, 1000, 1000, 3000, 10_000, 100_000]);
    let budget = (if t { 3 } else { 1 }) * r.range(3_000, 20_000);
    let budget = if crowded { budget / 6 } else { budget };
    let trajs = if faulty { r.range(0, 30) } else { (budget * 1000 / (ev + 1000)).max(3) };
    s.set("events1000", ev);
    s.set("trajs", if r.below(40) == 0 { r.range(0, 3) } else { trajs });
    s.set("clients", *r.pick(&[1, 1, 1, 2, 3]));
    s.set("unseeded", (r.below(3) == 0) as i64);
    s.set("seed", (r.next() >> 30) as i64);
    // one very long recording
    let long = !faulty && !crowded && r.below(60) == 0;
    if long {
        s.set("events1000", 1000 * r.range(150_000, 400_000));
        s.set("trajs", 1);
        s.set("clients", 1);
    }
    rescale(&mut s, r);
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    if crowded || long {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    if faulty {
        for _ in 0..r.range(1, 20) {
            let n = r.below((s.get("trajs") * (ev / 500 + 5)) as u64 + 2);
            let arg = *r.pick(&[0, 0, 1, 1, 1 << 20, 1 << 63, u64::MAX - 4096]);
            s.faults.push(Fault { kind: Fk::Draw, n, arg });
        }
        s.set("lawless", 1);
    } else {
        s.set("logs", 0);
    }
    s.sched = gen_sched(r, (if long { s.get("events1000") / 500 } else { budget } * 1000) as u64);
    s
}

/// structural requirements on one recorded trajectory; shared with other properties
pub fn complete(net: &Net, t: &Rows, end: f64, k: usize) -> Res {
    check!(t.len() >= 2, "rows", "trajectory {}: {} rows", k, t.len());
    check!(t[0].0 == 0.0, "start", "trajectory {}: first time is {:e}", k, t[0].0);
    let last = t.len() - 1;
    check!(
        t[last].0.to_bits() == end.to_bits(),
        "end",
        "trajectory {}: last time is {:e}, the end is {:e}",
        k,
        t[last].0,
        end
    );
    for (j, r) in t.iter().enumerate() {
        check!(
            r.1.len() == net.n() && r.1.iter().zip(&net.card).all(|(a, c)| a < c),
            "domain",
            "trajectory {} row {}: {:?} is no state of the process",
            k,
            j,
            r.1
        );
        if j > 0 {
            let p = &t[j - 1];
            check!(r.0 >= p.0, "time", "trajectory {} row {}: time goes from {:e} to {:e}", k, j, p.0, r.0);
            let d: Vec<usize> = (0..net.n()).filter(|&i| p.1[i] != r.1[i]).collect();
            if j == last {
                check!(d.is_empty(), "last", "trajectory {}: the last row changes the state {:?} -> {:?}", k, p.1, r.1);
            } else {
                check!(r.0 < end, "end", "trajectory {} row {}: an event at {:e} is not before the end", k, j, r.0);
                check!(d.len() == 1, "moves", "trajectory {} row {}: {:?} -> {:?}", k, j, p.1, r.1);
                let q = net.rate(d[0], &p.1, r.1[d[0]]);
                check!(q > 0.0, "impossible", "trajectory {} row {}: {:?} -> {:?} has intensity {}", k, j, p.1, r.1, q);
            }
        }
    }
    Ok(())
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let trajs = e.u("trajs");
    let end = e.p("events1000") as f64 * 1e-3 / net.max_exit();
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        clients(e.u("clients"), |c| {
            let seed = if e.p("unseeded") != 0 { None } else { Some((e.p("seed") as u64).wrapping_add(c as u64)) };
            let d = trajectory_generator(&g, trajs as u64, end, seed);
            d.get_trajectories().iter().map(rows).collect::<Vec<Rows>>()
        })
    })?;
    let mut begun = vec![];
    let mut firsts = vec![];
    for ts in all_ok(res)? {
        check!(ts.len() == trajs, "count", "{} trajectories instead of {}", ts.len(), trajs);
        let mut law = Law::new(&net);
        let mut first: Vec<f64> = vec![];
        let mut lens: Vec<f64> = vec![];
        let mut mid = vec![];
        for (k, t) in ts.iter().enumerate() {
            complete(&net, t, end, k)?;
            simos::note(t.len() as u64);
            simos::note(t[t.len() / 2].0.to_bits());
            e.count("rows", t.len() as f64);
            law.begin(&t[0].1);
            for w in t.windows(2) {
                law.stay(w[1].0 - w[0].0);
                if let Some(i) = (0..net.n()).find(|&i| w[0].1[i] != w[1].1[i]) {
                    law.jump(i, w[1].1[i]);
                }
            }
            let q: f64 = (0..net.n()).map(|i| net.exit(i, &t[0].1)).sum();
            first.push(if t.len() > 2 { (-t[1].0 * q).exp() } else { (-end * q).exp() });
            lens.push(t.len() as f64);
            if t.len() > 2 {
                mid.push(t[1].0.to_bits());
            }
            begun.push(t[0].1.clone());
        }
        e.count("trajectories", ts.len() as f64);
        if e.opt("lawless", 0) != 0 {
            continue;
        }
        let v = law.verdict();
        e.count("transitions", law.events as f64);
        e.max("rate deviation exponent (alarm at 25)", law.max_dev);
        e.max("sqrt(n) KS distance (alarm at 3.6)", law.max_ks);
        lawful(v)?;
        // the lengths may depend on the initial states only, which are independent
        for (what, x) in [("first events", &first), ("numbers of events", &lens)] {
            if x.len() >= 400 && e.p("events1000") >= 1000 {
                let z = corr_z(&x[..x.len() - 1], &x[1..]);
                e.max("serial correlation z (alarm at 8)", z.abs());
                check!(z.abs() < 8.0, "correlated", "{} of successive trajectories are correlated, z={:.1}", what, z);
            }
        }
        firsts.extend(mid);
    }
    if e.opt("lawless", 0) == 0 {
        let n = firsts.len();
        firsts.sort();
        let dup = firsts.windows(2).filter(|w| w[0] == w[1]).count();
        check!(dup <= 2, "repeat", "{} of {} trajectories have exactly the same first event time", dup, n);
        uniform_states(&net, &begun)?;
    }
    Ok(())
}
