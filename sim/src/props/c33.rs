//! C33: factored rewards are additive over variables.
use super::*;
use crate::exec::fail;
use crate::glue::*;
use crate::ops::*;
use crate::spec::gen_sched;
use model::net::Mix;
use reCTBN::process::NetworkProcess;
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::RewardFunction;
use reCTBN::sampling::ForwardSampler;

pub const PROP: Prop = Prop {
    id: "C33",
    gen,
    run,
    quick: (40000, 35.0),
    thorough: (3_000_000, 300.0),
    shrink: &[
        ("clients", Shrink::Int(1)),
        ("events", Shrink::Int(1)),
        ("rounds", Shrink::Int(1)),
        ("warm", Shrink::Int(0)),
        ("workers", Shrink::Int(1)),
        ("n", Shrink::Int(1)),
        ("edges", Shrink::Bits),
        ("card", Shrink::Digits),
        ("logs", Shrink::Int(0)),
        ("nested", Shrink::Int(0)),
    ],
    distinct: Distinct::Cases,
    rule: "one case = reward tables, their edits between simulated histories, a table shared by several threads x histories whose states and moves are rewarded x schedule; distinct by the complete specification of the run",
    real: REAL_ALL,
    stub: STUB_OS,
};

fn gen(r: &mut Rng, _i: u64, t: bool) -> Spec {
    let mut s = Spec::new("C33");
    let shape = match r.below(6) {
        0 => NetGen { n: (7, 20), card: (2, 4), max_joint: usize::MAX, max_parents: 3, styles: &[0, 1] },
        1 => NetGen { n: (1, 3), card: (5, 7), max_joint: usize::MAX, max_parents: 2, styles: &[0, 1, 3] },
        _ => NetGen { n: (1, 6), card: (2, 5), max_joint: usize::MAX, max_parents: 3, styles: &[0, 1, 3, 5] },
    };
    gen_net(&mut s, r, shape);
    widen(&mut s, r, usize::MAX);
    let crowded = crowd(&mut s, r, 30);
    s.set("events", r.range(1, if t { 300 } else { 60 }));
    s.set("rounds", r.range(1, 5));
    s.set("rstyle", r.range(0, 5));
    s.set("hseed", (r.next() >> 30) as i64);
    s.set("clients", *r.pick(&[1, 1, 2, 3]));
    s.set("workers", r.range(1, 4));
    gen_env(&mut s, r);
    gen_warm(&mut s, r);
    if crowded {
        s.set("warm", 0);
    }
    gen_faults(&mut s, r);
    s.sched = gen_sched(r, 300_000);
    s
}

fn ask(f: &FactoredRewardFunction, rw: &Rw, s: &[usize], before: Option<&[usize]>, at: &str) -> Res {
    let got = match before {
        Some(b) => f.call(&st(s), Some(&st(b))),
        None => f.call(&st(s), None),
    };
    let inst: f64 = rw.rate(s);
    let size: f64 = s.iter().enumerate().map(|(i, &x)| rw.inst[i][x].abs()).sum();
    check!(
        (got.instantaneous_reward - inst).abs() <= 1e-12 * size,
        "instantaneous",
        "{}: state {:?} earns {} instead of {}",
        at,
        s,
        got.instantaneous_reward,
        inst
    );
    let moved = before.and_then(|b| (0..s.len()).find(|&i| b[i] != s[i]).map(|i| (i, b[i], s[i])));
    let tr = moved.map_or(0.0, |(i, x, y)| rw.trans[i][x][y]);
    check!(
        got.transition_reward == tr,
        "transition",
        "{}: the move from {:?} to {:?} earns {} instead of {}",
        at,
        before,
        s,
        got.transition_reward,
        tr
    );
    Ok(())
}

fn run(e: &Env) -> Res {
    let net = net_of(e.spec);
    let n = net.n();
    let shared = Rw::gen(&net.card, e.p("rstyle"), e.p("hseed") as u64);
    let res = e.sim_ok(e.u("workers"), || {
        warm_up(e.spec, e.p("warm"));
        let g = build(&net);
        let fs = shared.factored(&g);
        clients(e.u("clients"), |c| -> Result<f64, crate::exec::Fail> {
            let mut r = Mix(simos::mix2(e.p("hseed") as u64, 33 + c as u64));
            // a function of this client whose tables are edited
            let mut f = FactoredRewardFunction::initialize_from_network_process(&g);
            let mut rw = Rw {
                inst: net.card.iter().map(|&c| vec![0.0; c]).collect(),
                trans: net.card.iter().map(|&c| vec![vec![0.0; c]; c]).collect(),
            };
            let mut done = 0.0;
            for round in 0..e.u("rounds") {
                let mut before: Option<Vec<usize>> = None;
                for (k, x) in ForwardSampler::new(&g, Some(r.next()), None).take(e.u("events")).enumerate() {
                    let at = format!("client {} round {} event {}", c, round, k);
                    let s = un(&x.state);
                    for (f, rw) in [(&f, &rw), (&fs, &shared)] {
                        ask(f, rw, &s, before.as_deref(), &at)?;
                        ask(f, rw, &s, None, &at)?;
                        ask(f, rw, &s, Some(&s), &at)?;
                        // any move of one variable
                        let i = r.below(n as u64) as usize;
                        let mut b = s.clone();
                        b[i] = (s[i] + 1 + r.below(net.card[i] as u64 - 1) as usize) % net.card[i];
                        ask(f, rw, &s, Some(&b), &at)?;
                        done += 4.0;
                    }
                    before = Some(s);
                }
                for _ in 0..1 + r.below(6) {
                    let i = r.below(n as u64) as usize;
                    let c = net.card[i] as u64;
                    let (x, y) = (r.below(c) as usize, r.below(c) as usize);
                    let v = [1.0, -2.5, 1e6, 1e-6][r.below(4) as usize] * (1.0 + r.f());
                    if r.below(2) == 0 {
                        rw.inst[i][x] = v;
                        f.get_instantaneous_reward_mut(i)[x] = v;
                    } else {
                        rw.trans[i][x][y] = v;
                        f.get_transition_reward_mut(i)[[x, y]] = v;
                    }
                    let (a, b) = (f.get_instantaneous_reward(i), f.get_transition_reward(i));
                    check!(
                        a.iter().copied().eq(rw.inst[i].iter().copied())
                            && b.iter().copied().eq(rw.trans[i].iter().flatten().copied()),
                        "tables",
                        "client {}: the tables of variable {} are {:?} {:?}",
                        c,
                        i,
                        a,
                        b
                    );
                }
            }
            let _ = g.get_number_of_nodes();
            Ok(done)
        })
    })?;
    for x in all_ok(res)? {
        let d = x?;
        e.count("rewards_compared", d);
        simos::note(d as u64);
    }
    Ok(())
}
