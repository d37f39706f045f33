//! C18: amalgamation preserves the law of the network.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::props::c02::{feed, uniform_states};
use crate::spec::gen_sched;
use model::law::*;
use model::net::Net;
use reCTBN::params::ParamsTrait;
use reCTBN::process::NetworkProcess;
use reCTBN::sampling::{ForwardSampler, Sample, Sampler};

pub const PROP: Prop = Prop {
    id: "C18",
    gen,
    run,
    quick: (3000, 60.0),
    thorough: (200_000, 600.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("starts", Shrink::Int(0)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = network x seeds or entropy x schedule of concurrent samplers of the network and of its amalgamation; the amalgamated rows of all joint states are compared with the network, and the histories of either process are tested against the law of the other; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C18");
    gen_net(
        &mut s,
        r,
        NetGen { n: (1, 5), card: (2, 5), max_joint: 64, max_parents: 4, styles: &[0, 1, 1, 2, 3, 4, 5, 6, 8] },
    );
    s.set("clients", *r.pick(&[1, 1, 2, 3]));
    s.set("steps", (if t { 3 } else { 1 }) * r.range(1_000, 16_000));
    s.set("starts", *r.pick(&[0, 60, 400]));
    s.set("initkind", r.range(0, 1));
    s.set("unseeded", (r.below(3) == 0) as i64);
    s.set("seed", (r.next() >> 30) as i64);
    rescale(&mut s, r);
    gen_env(&mut s, r);
    s.set("logs", 0);
    gen_warm(&mut s, r);
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, (s.get("clients") * s.get("steps") * 900) as u64);
    s
}

/// feed a sample of the amalgamated process, read back as a joint state, to the law of the network
fn feed_joint(law: &mut Law, t: &mut f64, x: &Sample, k: usize, net: &Net) -> Res {
    let v = un(&x.state);
    check!(v.len() == 1 && v[0] < net.joint(), "domain", "sample {} of the amalgamation: {:?}", k, v);
    let now = net.state(v[0]);
    let d: Vec<usize> = (0..now.len()).filter(|&i| now[i] != law.state()[i]).collect();
    check!(
        d.len() == 1,
        "moves",
        "sample {} of the amalgamation: {:?} -> {:?} changes {} variables",
        k,
        law.state(),
        now,
        d.len()
    );
    check!(
        law.net.rate(d[0], law.state(), now[d[0]]) > 0.0,
        "impossible",
        "sample {} of the amalgamation: {:?} -> {:?} has no intensity in the network",
        k,
        law.state(),
        now
    );
    let dt = x.t - *t;
    check!(dt >= 0.0 && dt.is_finite(), "time", "sample {}: waiting time {}", k, dt);
    law.stay(dt);
    law.jump(d[0], now[d[0]]);
    *t = x.t;
    Ok(())
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let joint = net.joint();
    let (steps, starts) = (e.u("steps"), e.u("starts"));
    let seed = |k: u64| if e.p("unseeded") != 0 { None } else { Some((e.p("seed") as u64).wrapping_add(k)) };
    let out = std::sync::Mutex::new(None);
    let res = e.sim_ok(1, || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        let before = graph_bits(&g);
        let c = g.amalgamation();
        check!(c.get_number_of_nodes() == 1, "nodes", "the amalgamation has {} nodes", c.get_number_of_nodes());
        check!(
            c.get_node(0).get_reserved_space_as_parent() == joint,
            "states",
            "the amalgamation has {} states, the network {}",
            c.get_node(0).get_reserved_space_as_parent(),
            joint
        );
        if let Err(x) = c.get_node(0).validate_params() {
            return fail("invalid", format!("{:?}", x));
        }
        let m = get_cim(c.get_node(0)).unwrap();
        check!(m.len() == 1 && m[0].len() == joint, "shape", "{} blocks of {} rows", m.len(), m[0].len());
        for k in 0..joint {
            let mut want = vec![0.0; joint];
            let mut tot = 0.0;
            for (t, q, ..) in net.out(k) {
                want[t] += q;
                tot += q;
            }
            want[k] = -tot;
            for t in 0..joint {
                check!(
                    (m[0][k][t] - want[t]).abs() <= 1e-12 * (tot + 1.0) && (t == k || (want[t] == 0.0) == (m[0][k][t] == 0.0)),
                    "row",
                    "{:?} -> {:?}: amalgamated intensity {}, the network has {}",
                    net.state(k),
                    net.state(t),
                    m[0][k][t],
                    want[t]
                );
            }
        }
        // its own rows as a reference process
        let flat = Net { card: vec![joint], parents: vec![vec![]], cim: vec![m] };
        // the amalgamation outlives the network it was made from being learned anew
        let r = clients(e.u("clients"), |cl| {
            let base = (cl as u64) << 40;
            let mut a = Law::new(&flat);
            let mut b = Law::new(&net);
            let init = |k: usize| if e.p("initkind") == 0 { None } else { Some(k % joint) };
            // the network under the law of the amalgamation
            let mut s = ForwardSampler::new(&g, seed(base), init(cl).map(|k| st(&net.state(k))));
            let x = s.next().unwrap();
            a.begin(&[net.idx(&un(&x.state))]);
            let mut t = x.t;
            for k in 0..steps {
                let mut x = s.next().unwrap();
                let now = un(&x.state);
                check!(now.iter().zip(&net.card).all(|(a, c)| a < c), "domain", "sample {}: {:?}", k, now);
                x.state = st(&[net.idx(&now)]);
                feed(&mut a, &mut t, &x, k)?;
            }
            // the amalgamation under the law of the network
            let mut begun = vec![];
            let mut s = ForwardSampler::new(&c, seed(base + 1), init(cl).map(|k| st(&[k])));
            for k in 0..starts {
                s.reset();
                let x = s.next().unwrap();
                let v = un(&x.state);
                check!(v.len() == 1 && v[0] < joint, "domain", "the amalgamation starts in {:?}", v);
                check!(x.t == 0.0, "start", "the amalgamation starts at {:e}", x.t);
                let first = net.state(v[0]);
                b.begin(&first);
                begun.push(first);
                let mut t = x.t;
                for j in 0..2 {
                    feed_joint(&mut b, &mut t, &s.next().unwrap(), k + j, &net)?;
                }
            }
            s.reset();
            let x = s.next().unwrap();
            let v = un(&x.state);
            check!(v.len() == 1 && v[0] < joint, "domain", "the amalgamation starts in {:?}", v);
            if let Some(k) = init(cl) {
                check!(v[0] == k, "start", "the amalgamation starts in {:?} instead of {}", v, k);
            }
            b.begin(&net.state(v[0]));
            let mut t = x.t;
            for k in 0..steps {
                feed_joint(&mut b, &mut t, &s.next().unwrap(), k, &net)?;
            }
            let va = a.verdict();
            let vb = b.verdict();
            Ok((va, vb, begun, a.events + b.events, a.time, a.max_dev.max(b.max_dev), a.max_ks.max(b.max_ks)))
        });
        check!(graph_bits(&g) == before, "changed", "amalgamation changed the network");
        *out.lock().unwrap() = Some(r);
        Ok(())
    })?;
    res?;
    let mut begun = vec![];
    for x in all_ok(out.into_inner().unwrap().unwrap())? {
        let (va, vb, bg, ev, time, dev, ks) = x?;
        begun.extend(bg);
        simos::note(ev);
        simos::note(time.to_bits());
        e.count("transitions", ev as f64);
        e.count("rows_compared", joint as f64);
        e.count("simulated_process_time", 2.0 * time);
        e.max("rate deviation exponent (alarm at 25)", dev);
        e.max("sqrt(n) KS distance (alarm at 3.6)", ks);
        lawful(va).map_err(|f| crate::exec::Fail { class: f.class, msg: format!("network under the amalgamated law: {}", f.msg) })?;
        lawful(vb).map_err(|f| crate::exec::Fail { class: f.class, msg: format!("amalgamation under the law of the network: {}", f.msg) })?;
    }
    if e.p("initkind") == 0 {
        uniform_states(&net, &begun)?;
    }
    Ok(())
}
