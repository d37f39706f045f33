//! Batches of runs over worker processes, minimisation, replay, evidence.
use crate::exec::{run, Outcome, Shm};
use crate::props::{Prop, Shrink};
use crate::spec::{Spec, J};
use simos::{mix2, Rng, Strategy, FK_NAMES};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::time::Instant;

pub fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn shm() -> &'static Shm {
    Box::leak(Box::new(Shm::new(48 << 20)))
}
pub fn spec_for(prop: &Prop, seed: u64, idx: u64, thorough: bool) -> Spec {
    let mut h = mix2(seed, 0x5eed);
    for b in prop.id.bytes() {
        h = mix2(h, b as u64);
    }
    let mut r = Rng::new(mix2(h, idx));
    let mut s = (prop.gen)(&mut r, idx, thorough);
    s.prop = prop.id.into();
    s
}
fn pin(w: usize) {
    unsafe {
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(w % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

#[derive(Default)]
pub struct Agg {
    pub runs: u64,
    pub sums: BTreeMap<String, f64>,
    pub maxs: BTreeMap<String, f64>,
    pub sigs: BTreeSet<u64>,
    pub specs: BTreeSet<u64>,
    pub cover: BTreeSet<u32>,
    pub fired_runs: [u64; 7],
    pub strategies: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
}
impl Agg {
    fn add(&mut self, spec: &Spec, o: &Outcome, idx: u64) {
        self.runs += 1;
        let st = &o.stats;
        for (k, v) in [
            ("points", st.points),
            ("switches", st.switches),
            ("preemptions", st.preempts),
            ("threads", st.created),
            ("futex_waits", st.futex_waits),
            ("yields", st.yields),
            ("entropy_requests", st.getrandoms),
            ("clock_reads", st.clocks),
            ("callbacks", st.callbacks),
            ("log_records", st.logs),
            ("random_words", st.draws),
            ("sim_ns", st.sim_ns),
        ] {
            *self.sums.entry(format!("os:{}", k)).or_insert(0.0) += v as f64;
        }
        let e = self.maxs.entry("points of a run (no-progress alarm at 2e9)".into()).or_insert(0.0);
        *e = e.max(st.points as f64);
        for i in 0..7 {
            *self.sums.entry(format!("fault:{}", FK_NAMES[i])).or_insert(0.0) += st.fired[i] as f64;
            if st.fired[i] > 0 {
                self.fired_runs[i] += 1;
            }
        }
        for (k, v) in &o.counts {
            if let Some(m) = k.strip_prefix("max:") {
                let e = self.maxs.entry(m.into()).or_insert(f64::NEG_INFINITY);
                *e = e.max(*v);
            } else {
                *self.sums.entry(k.clone()).or_insert(0.0) += v;
            }
        }
        if st.switches > 2 {
            self.sigs.insert(st.sig);
        }
        let mut h = 0;
        for b in spec.to_json().text().bytes() {
            h = mix2(h, b as u64);
        }
        self.specs.insert(h);
        self.cover.extend(o.cover.iter());
        let k = format!("{:?}", spec.sched.strategy);
        *self.strategies.entry(k.split([' ', '{']).next().unwrap().to_lowercase()).or_insert(0) += 1;
        if idx < 3 {
            self.samples.push((
                idx,
                format!(
                    "{} => ok, {} points, {} switches, counts {:?}",
                    spec.to_json().text().split_whitespace().collect::<Vec<_>>().join(""),
                    st.points,
                    st.switches,
                    o.counts
                ),
            ));
        }
    }
    fn encode(&self) -> String {
        let mut s = format!("runs\t{}\n", self.runs);
        for (k, v) in &self.sums {
            s += &format!("s\t{}\t{:e}\n", k, v);
        }
        for (k, v) in &self.maxs {
            s += &format!("m\t{}\t{:e}\n", k, v);
        }
        s += &format!("sig\t{}\n", self.sigs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        s += &format!("spec\t{}\n", self.specs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        s += &format!("cov\t{}\n", self.cover.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        s += &format!("fr\t{}\n", self.fired_runs.map(|x| x.to_string()).join(" "));
        for (k, v) in &self.strategies {
            s += &format!("str\t{}\t{}\n", k, v);
        }
        for (i, x) in &self.samples {
            s += &format!("sample\t{}\t{}\n", i, x);
        }
        s
    }
    fn merge(&mut self, t: &str) {
        for l in t.lines() {
            let f: Vec<&str> = l.splitn(3, '\t').collect();
            match f[0] {
                "runs" => self.runs += f[1].parse::<u64>().unwrap_or(0),
                "s" => *self.sums.entry(f[1].into()).or_insert(0.0) += f[2].parse::<f64>().unwrap_or(0.0),
                "m" => {
                    let v = f[2].parse::<f64>().unwrap_or(f64::NEG_INFINITY);
                    let e = self.maxs.entry(f[1].into()).or_insert(f64::NEG_INFINITY);
                    *e = e.max(v);
                }
                "sig" => self.sigs.extend(f[1].split(' ').filter_map(|x| x.parse::<u64>().ok())),
                "spec" => self.specs.extend(f[1].split(' ').filter_map(|x| x.parse::<u64>().ok())),
                "cov" => self.cover.extend(f[1].split(' ').filter_map(|x| x.parse::<u32>().ok())),
                "fr" => f[1]
                    .split(' ')
                    .filter_map(|x| x.parse::<u64>().ok())
                    .enumerate()
                    .for_each(|(i, x)| self.fired_runs[i] += x),
                "str" => *self.strategies.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "sample" => self.samples.push((f[1].parse().unwrap_or(0), f[2].into())),
                _ => {}
            }
        }
    }
}

pub struct Batch {
    pub agg: Agg,
    pub violation: Option<(u64, Spec, Outcome)>,
    pub wall: f64,
    pub harness_error: Option<String>,
}

/// Run indices 0..runs over `workers` processes.
pub fn batch(prop: &Prop, seed: u64, thorough: bool, runs: u64, cap_s: f64, workers: usize) -> Batch {
    let t0 = Instant::now();
    let flag = Shm::new(4096);
    flag.clear();
    let mut pipes = vec![];
    for w in 0..workers {
        let mut fd = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fd[0]);
                pin(w);
                let mut out = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd[1]);
                let mem = shm();
                let mut agg = Agg::default();
                let mut idx = w as u64;
                let mut text = String::new();
                while idx < runs && t0.elapsed().as_secs_f64() < cap_s && flag.get().is_none() {
                    let spec = spec_for(prop, seed, idx, thorough);
                    let started = Instant::now();
                    let o = run(&spec, mem, false);
                    if (started.elapsed().as_secs_f64() > 3.0 || o.stats.points > 400_000_000) && std::env::var_os("SIM_SLOW").is_some() {
                        eprintln!("run {}: {:.1} s, {} points", idx, started.elapsed().as_secs_f64(), o.stats.points);
                    }
                    if o.class.is_some() {
                        flag.put(b"stop");
                        text += &format!(
                            "viol\t{}\t{}\t{}\n",
                            idx,
                            o.class.clone().unwrap(),
                            o.msg.replace('\t', " ")
                        );
                        break;
                    }
                    agg.add(&spec, &o, idx);
                    idx += workers as u64;
                }
                text += &agg.encode();
                let _ = out.write_all(text.as_bytes());
                drop(out);
                libc::_exit(0);
            }
            libc::close(fd[1]);
            pipes.push((pid, fd[0]));
        }
    }
    let mut agg = Agg::default();
    let mut viols: Vec<(u64, String, String)> = vec![];
    let mut harness_error = None;
    for (pid, fd) in pipes {
        let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
        let mut t = String::new();
        let _ = f.read_to_string(&mut t);
        let mut st = 0;
        unsafe {
            libc::waitpid(pid, &mut st, 0);
        }
        if st != 0 || !t.contains("runs\t") {
            harness_error = Some(format!("worker process ended with status {:x}", st));
        }
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("viol\t") {
                let f: Vec<&str> = x.splitn(3, '\t').collect();
                viols.push((f[0].parse().unwrap(), f[1].into(), f[2].into()));
            }
        }
        agg.merge(&t);
    }
    agg.samples.sort();
    viols.sort();
    let violation = viols.into_iter().next().map(|(i, c, m)| {
        (i, spec_for(prop, seed, i, thorough), Outcome { class: Some(c), msg: m, ..Default::default() })
    });
    Batch { agg, violation, wall: t0.elapsed().as_secs_f64(), harness_error }
}

/// Reduce a failing specification while the class of the violation stays the same.
pub fn minimise(prop: &Prop, spec: &Spec, class: &str, cap_s: f64) -> (Spec, Outcome, u64) {
    let t0 = Instant::now();
    let mem = shm();
    let mut tries = 0;
    let mut best = spec.clone();
    let mut best_o = run(&best, mem, true);
    if best_o.class.as_deref() != Some(class) {
        return (best, best_o, 1);
    }
    let attempt = |s: &Spec, tries: &mut u64| -> Option<Outcome> {
        *tries += 1;
        let o = run(s, mem, true);
        if o.class.as_deref() == Some(class) {
            Some(o)
        } else {
            None
        }
    };
    let time = || t0.elapsed().as_secs_f64() < cap_s;
    // 1. does it need the schedule at all?
    if best.sched.strategy != Strategy::Seq {
        let mut s = best.clone();
        s.sched.strategy = Strategy::Seq;
        if let Some(o) = attempt(&s, &mut tries) {
            best = s;
            best_o = o;
        }
    }
    for round in 0..2 {
        // 2. faults
        let mut i = 0;
        while i < best.faults.len() && time() {
            let mut s = best.clone();
            s.faults.remove(i);
            if let Some(o) = attempt(&s, &mut tries) {
                best = s;
                best_o = o;
            } else {
                for n in [0, best.faults[i].n / 2, best.faults[i].n.saturating_sub(1)] {
                    if n < best.faults[i].n {
                        let mut s = best.clone();
                        s.faults[i].n = n;
                        if let Some(o) = attempt(&s, &mut tries) {
                            best = s;
                            best_o = o;
                        }
                    }
                }
                i += 1;
            }
        }
        // 3. workload parameters
        let mut progress = true;
        while progress && time() {
            progress = false;
            for (key, kind) in prop.shrink.iter().chain(&[("star", Shrink::Int(0)), ("bigc", Shrink::Int(0))]) {
                let Some(&cur) = best.p.get(*key) else { continue };
                let cands: Vec<i64> = match kind {
                    Shrink::Int(min) => {
                        if cur <= *min {
                            vec![]
                        } else {
                            vec![*min, *min + (cur - *min) / 4, *min + (cur - *min) / 2, cur - 1]
                        }
                    }
                    Shrink::Bits => (0..63).filter(|b| cur >> b & 1 == 1).map(|b| cur & !(1 << b)).collect(),
                    Shrink::Digits => {
                        (0..20).filter(|d| cur >> (3 * d) & 7 > 2).map(|d| cur - (1 << (3 * d))).collect()
                    }
                };
                for c in cands {
                    if c == *best.p.get(*key).unwrap() || !time() {
                        continue;
                    }
                    let mut s = best.clone();
                    s.p.insert(key.to_string(), c);
                    if let Some(o) = attempt(&s, &mut tries) {
                        best = s;
                        best_o = o;
                        progress = true;
                        break;
                    }
                }
            }
        }
        // 4. schedule: explicit deviations, delta debugging
        if round == 0 && best.sched.strategy != Strategy::Seq {
            let mut s = best.clone();
            s.sched.strategy = Strategy::Replay;
            s.sched.trace = best_o.stats.devs.clone();
            if let Some(o) = attempt(&s, &mut tries) {
                best = s;
                best_o = o;
                let mut chunk = (best.sched.trace.len() / 2).max(1);
                while time() && !best.sched.trace.is_empty() {
                    let mut i = 0;
                    let mut removed = false;
                    while i < best.sched.trace.len() && time() {
                        let mut s = best.clone();
                        let e = (i + chunk).min(s.sched.trace.len());
                        s.sched.trace.drain(i..e);
                        if let Some(o) = attempt(&s, &mut tries) {
                            best = s;
                            best_o = o;
                            removed = true;
                        } else {
                            i += chunk;
                        }
                    }
                    if chunk == 1 && !removed {
                        break;
                    }
                    if !removed || chunk > best.sched.trace.len() {
                        chunk = (chunk / 2).max(1);
                    }
                }
            }
        }
    }
    (best, best_o, tries)
}

pub fn write_replay(prop: &Prop, spec: &Spec, o: &Outcome, seed: u64, idx: u64, tries: u64) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-seed{}-run{}.json", dir, prop.id, seed, idx);
    let mut j = match spec.to_json() {
        J::Obj(v) => v,
        _ => unreachable!(),
    };
    j.push(("class".into(), J::s(o.class.clone().unwrap_or_default())));
    j.push(("message".into(), J::s(o.msg.clone())));
    j.push(("event_hash".into(), J::u(o.stats.hash)));
    j.push(("verif_seed".into(), J::u(seed)));
    j.push(("run".into(), J::u(idx)));
    j.push(("minimisation_runs".into(), J::u(tries)));
    j.push(("points".into(), J::u(o.stats.points)));
    std::fs::write(&path, J::Obj(j).text()).expect("harness: cannot write replay file");
    path
}

/// Replay a file; prints what happened. 1 = the recorded violation, 0 = no violation, 2 = something else.
pub fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let j = J::parse(&t).expect("replay file");
    let spec = Spec::from_json(&j).expect("replay file");
    let o = run(&spec, shm(), false);
    let want = j.get("class").map_or("", |x| x.str());
    match &o.class {
        None => {
            println!("REPLAY clean: property={} (recorded class {})", spec.prop, want);
            0
        }
        Some(c) => {
            println!("REPLAY property={} class={} hash={} : {}", spec.prop, c, o.stats.hash, o.msg);
            let wh = j.get("event_hash").map_or(0, |x| x.int() as u64);
            if c == want {
                if wh != o.stats.hash {
                    println!("REPLAY note: event hash differs from the recorded {}", wh);
                }
                1
            } else {
                2
            }
        }
    }
}

pub fn check(prop: &Prop, seed: u64, thorough: bool, runs: u64, cap: f64) -> i32 {
    let t0 = Instant::now();
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    println!("check {} seed={} tier={} runs<={} cap={}s workers={}", prop.id, seed, if thorough { "thorough" } else { "quick" }, runs, cap, workers);
    let b = batch(prop, seed, thorough, runs, cap, workers);
    let mut code = 0;
    let mut viol = 0;
    if let Some((idx, spec, o)) = &b.violation {
        let class = o.class.clone().unwrap();
        if class.contains("panic") && o.msg.starts_with("harness:") {
            eprintln!("harness error in run {}: {}", idx, o.msg);
            return 2;
        }
        let cap = if thorough { 180.0 } else { 45.0 };
        let (m, mo, tries) = minimise(prop, spec, &class, cap);
        if mo.class.is_none() {
            eprintln!("run {} failed with {} ({}) but did not fail again: nondeterminism in the harness", idx, class, o.msg);
            return 2;
        }
        let path = write_replay(prop, &m, &mo, seed, *idx, tries);
        println!("violation in run {}: {}: {}", idx, class, o.msg);
        println!("minimised ({} runs): {}: {}", tries, mo.class.clone().unwrap_or_default(), mo.msg);
        // the replay must reproduce in a fresh process
        let me = std::env::current_exe().unwrap();
        let r = std::process::Command::new(me).arg("replay").arg(&path).output();
        let ok = matches!(&r, Ok(x) if x.status.code() == Some(1));
        println!("replay in a fresh process: {}", if ok { "reproduced" } else { "NOT reproduced" });
        println!("VIOLATION property={} replay={}", prop.id, path);
        code = 1;
        viol = 1;
    } else if let Some(e) = &b.harness_error {
        eprintln!("harness error: {}", e);
        return 2;
    } else if b.agg.runs == 0 {
        eprintln!("harness error: no run was executed");
        return 2;
    }
    for (p, id, text) in crate::exec::open_findings() {
        let n = b.agg.sums.get(&format!("known:{}", id)).copied().unwrap_or(0.0);
        if p == prop.id && n > 0.0 {
            println!("KNOWN-FINDING: property={} {} ({} runs)", p, text, n);
        }
    }
    evidence(prop, seed, thorough, &b, viol, t0.elapsed().as_secs_f64());
    println!(
        "{} runs, {} distinct schedules, {:.0} runs/s, {} points (at most {:.1e} in a run), wall {:.1}s",
        b.agg.runs,
        b.agg.sigs.len(),
        b.agg.runs as f64 / b.wall,
        b.agg.sums.get("os:points").copied().unwrap_or(0.0),
        b.agg.maxs.get("points of a run (no-progress alarm at 2e9)").copied().unwrap_or(0.0),
        t0.elapsed().as_secs_f64()
    );
    code
}

fn evidence(prop: &Prop, seed: u64, thorough: bool, b: &Batch, viol: i64, wall: f64) {
    let a = &b.agg;
    let g = |k: &str| a.sums.get(k).copied().unwrap_or(0.0);
    let num = |x: f64| if x == x.trunc() && x.abs() < 9e15 { J::i(x as i64) } else { J::f(x) };
    let mut faults = vec![];
    for i in 0..7 {
        let k = format!("fault:{}", FK_NAMES[i]);
        if g(&k) > 0.0 {
            faults.push((
                FK_NAMES[i].to_string(),
                J::Obj(vec![("fired".into(), num(g(&k))), ("runs".into(), J::u(a.fired_runs[i]))]),
            ));
        }
    }
    for (k, v) in &a.sums {
        if let Some(x) = k.strip_prefix("wfault:") {
            faults.push((x.to_string(), num(*v)));
        }
    }
    let probes: Vec<(String, J)> = a
        .sums
        .iter()
        .filter(|(k, _)| !k.starts_with("os:") && !k.starts_with("fault:") && !k.starts_with("wfault:"))
        .map(|(k, v)| (k.clone(), num(*v)))
        .chain(a.maxs.iter().map(|(k, v)| (format!("max {}", k), J::f(*v))))
        .collect();
    let os: Vec<(String, J)> =
        a.sums.iter().filter_map(|(k, v)| k.strip_prefix("os:").map(|x| (x.to_string(), num(*v)))).collect();
    let distinct = match prop.distinct {
        crate::props::Distinct::Schedules => a.sigs.len(),
        crate::props::Distinct::Cases => a.specs.len(),
    };
    let j = J::Obj(vec![
        ("property".into(), J::s(prop.id)),
        ("tier".into(), J::s(if thorough { "thorough" } else { "quick" })),
        ("seed".into(), J::u(seed)),
        ("level".into(), J::s("exploration")),
        (
            "coverage".into(),
            J::Obj(vec![
                ("evaluations".into(), J::u(a.runs)),
                ("distinct_nontrivial".into(), J::u(distinct as u64)),
                ("rule".into(), J::s(prop.rule)),
                (
                    "samples".into(),
                    J::Arr(a.samples.iter().map(|x| J::s(x.1.clone())).collect()),
                ),
                ("runs_per_hour".into(), J::u((a.runs as f64 / b.wall.max(0.001) * 3600.0) as u64)),
                ("seeds".into(), J::u(a.runs)),
                ("simulated_os_time_s".into(), J::f(g("os:sim_ns") / 1e9)),
                ("distinct_schedules".into(), J::u(a.sigs.len() as u64)),
                ("distinct_preempted_code_locations".into(), J::u(a.cover.len() as u64)),
                (
                    "schedulers".into(),
                    J::Obj(a.strategies.iter().map(|(k, v)| (k.clone(), J::u(*v))).collect()),
                ),
                ("faults_injected".into(), J::Obj(faults)),
                ("probes".into(), J::Obj(probes)),
                ("simulated_os".into(), J::Obj(os)),
                ("real_components".into(), J::s(prop.real)),
                ("stub_components".into(), J::s(prop.stub)),
            ]),
        ),
        (
            "assumptions".into(),
            J::Arr(vec![
                J::s("sequentially consistent interleavings: one thread runs at a time, weak-memory reorderings are not simulated"),
                J::s("the simulator (link-time interposed libc entry points, patched rand_chacha hook) is transparent when no fault is injected"),
            ]),
        ),
        ("wall_s".into(), J::f(wall)),
        ("violations".into(), J::i(viol)),
    ]);
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, prop.id), j.text()).expect("harness: cannot write evidence");
}

/// Every index is executed three times, in processes pinned to different cores and in different orders; logs are compared.
pub fn determinism(props: &[&Prop], seed: u64, runs: u64) -> i32 {
    let mut bad = 0;
    for p in props {
        let mut hs: Vec<Vec<(u64, u64, u64, String)>> = vec![];
        for pass in 0..3usize {
            let w = [8usize, 3, 5][pass];
            let mut v = vec![];
            let mut pipes = vec![];
            for k in 0..w {
                let mut fd = [0i32; 2];
                unsafe {
                    libc::pipe(fd.as_mut_ptr());
                    let pid = libc::fork();
                    if pid == 0 {
                        libc::close(fd[0]);
                        pin(k + pass);
                        let mem = shm();
                        let mut t = String::new();
                        let mut ids: Vec<u64> = (0..runs).filter(|i| *i as usize % w == k).collect();
                        if pass == 1 {
                            ids.reverse();
                        }
                        for i in ids {
                            let mut s = spec_for(p, seed, i, false);
                            if pass == 2 {
                                // as a replay file would bring it
                                s = Spec::from_json(&J::parse(&s.to_json().text()).unwrap()).unwrap();
                            }
                            let o = run(&s, mem, false);
                            let mut c = 0;
                            for (k, v) in &o.counts {
                                for b in k.bytes() {
                                    c = mix2(c, b as u64);
                                }
                                c = mix2(c, v.to_bits());
                            }
                            t += &format!("{}\t{}\t{}\t{}\t{:?}\n", i, o.stats.hash, o.stats.points, c, o.class);
                        }
                        let mut out = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd[1]);
                        let _ = out.write_all(t.as_bytes());
                        drop(out);
                        libc::_exit(0);
                    }
                    libc::close(fd[1]);
                    pipes.push((pid, fd[0]));
                }
            }
            for (pid, fd) in pipes {
                let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
                let mut t = String::new();
                let _ = f.read_to_string(&mut t);
                let mut st = 0;
                unsafe {
                    libc::waitpid(pid, &mut st, 0);
                }
                for l in t.lines() {
                    let f: Vec<&str> = l.split('\t').collect();
                    v.push((
                        f[0].parse::<u64>().unwrap(),
                        f[1].parse::<u64>().unwrap(),
                        mix2(f[2].parse().unwrap(), f[3].parse().unwrap()),
                        f[4].to_string(),
                    ));
                }
            }
            v.sort();
            hs.push(v);
        }
        let mut diff = 0;
        for i in 0..runs as usize {
            let a = hs[0].get(i);
            if a.is_none() || a != hs[1].get(i) || a != hs[2].get(i) {
                diff += 1;
                if diff < 4 {
                    println!("  {} run {} differs: {:?} {:?} {:?}", p.id, i, a, hs[1].get(i), hs[2].get(i));
                }
            }
        }
        println!("determinism {}: {} runs x 3 executions, {} differences", p.id, runs, diff);
        bad += diff;
    }
    if bad > 0 {
        1
    } else {
        0
    }
}
