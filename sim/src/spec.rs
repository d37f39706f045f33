//! A run specification: everything a run depends on, as plain integers.  Also a tiny JSON reader/writer for replay files.
use simos::{Config, Fault, Rng, Strategy, FK, FK_NAMES};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub prop: String,
    /// workload parameters
    pub p: BTreeMap<String, i64>,
    pub sched: Sched,
    pub faults: Vec<Fault>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sched {
    pub strategy: Strategy,
    pub seed: u64,
    pub trace: Vec<(u64, u32)>,
}
impl Spec {
    pub fn new(prop: &str) -> Spec {
        Spec {
            prop: prop.into(),
            p: BTreeMap::new(),
            sched: Sched { strategy: Strategy::Seq, seed: 1, trace: vec![] },
            faults: vec![],
        }
    }
    pub fn get(&self, k: &str) -> i64 {
        *self.p.get(k).unwrap_or_else(|| panic!("harness: parameter {} missing", k))
    }
    pub fn opt(&self, k: &str, d: i64) -> i64 {
        *self.p.get(k).unwrap_or(&d)
    }
    pub fn set(&mut self, k: &str, v: i64) -> &mut Spec {
        self.p.insert(k.into(), v);
        self
    }
    pub fn config(&self) -> Config {
        Config {
            strategy: self.sched.strategy.clone(),
            seed: self.sched.seed,
            trace: self.sched.trace.clone(),
            faults: self.faults.clone(),
            entropy: self.opt("entropy", 1) as u64,
            clock_base_ns: 1_000_000_000 * (1_500_000_000 + self.opt("clock", 0) as u64),
            ns_per_point: self.opt("ns_per_point", 3) as u64,
            budget: self.opt("budget", simos::DEFAULT_BUDGET as i64) as u64,
            ncpu: self.opt("ncpu", 4) as u64,
            flip: None,
        }
    }
}

/// Draw a schedule.  `len` is the expected number of points of the run.
pub fn gen_sched(r: &mut Rng, len: u64) -> Sched {
    let seed = r.next() >> 16;
    let len = len.max(100);
    let log = |r: &mut Rng, lo: f64, hi: f64| (lo.ln() + r.f() * (hi / lo).ln()).exp() as u64;
    let strategy = match r.below(100) {
        0..=5 => Strategy::Seq,
        6..=37 => {
            let g = log(r, (len as f64 / 3000.0).max(2.0), len as f64 * 0.5);
            Strategy::Rand { gap: g, psync: *r.pick(&[0, 30, 200, 600]), from: 0, to: u64::MAX >> 1 }
        }
        38..=57 => {
            // a burst of very fine grained preemption at one place of the run
            let from = r.below(len);
            let gap = log(r, 2.0, 40.0);
            Strategy::Rand { gap, psync: *r.pick(&[0, 200, 600]), from, to: from + gap * (200 + r.below(2500)) }
        }
        58..=77 => Strategy::Pct { d: 1 + r.below(8), len },
        78..=87 => Strategy::Rr { quantum: log(r, (len as f64 / 2000.0).max(3.0), len as f64 * 0.3) },
        _ => Strategy::Starve {
            victim: r.below(7),
            len: log(r, 100.0, len as f64),
            gap: log(r, (len as f64 / 2000.0).max(3.0), len as f64 * 0.5),
        },
    };
    Sched { strategy, seed, trace: vec![] }
}

// ------------------------------------------------------------------------------------------------ JSON
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn i(x: i64) -> J {
        J::Num(x.to_string())
    }
    pub fn u(x: u64) -> J {
        J::Num(x.to_string())
    }
    pub fn f(x: f64) -> J {
        if x.is_finite() {
            J::Num(format!("{:.6}", x))
        } else {
            J::Null
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Num(s) => s.parse::<i64>().or_else(|_| s.parse::<u64>().map(|x| x as i64)).unwrap_or(0),
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn write(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push(' '),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                let flat = v.iter().all(|x| !matches!(x, J::Obj(_)));
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(if flat { ", " } else { "," });
                    }
                    if !flat {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    x.write(o, ind + 1);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('\n');
                    o.push_str(&" ".repeat(ind + 1));
                    J::s(k.clone()).write(o, 0);
                    o.push_str(": ");
                    x.write(o, ind + 1);
                }
                o.push('\n');
                o.push_str(&" ".repeat(ind));
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b: Vec<char> = t.chars().collect();
        let mut i = 0;
        let j = parse(&b, &mut i)?;
        Ok(j)
    }
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn parse(b: &[char], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    let c = *b.get(*i).ok_or("eof")?;
    match c {
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b.get(*i) == Some(&'}') {
                    *i += 1;
                    return Ok(J::Obj(v));
                }
                if b.get(*i) == Some(&',') {
                    *i += 1;
                    continue;
                }
                let k = match parse(b, i)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, i);
                if b.get(*i) != Some(&':') {
                    return Err("colon".into());
                }
                *i += 1;
                v.push((k, parse(b, i)?));
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b.get(*i) == Some(&']') {
                    *i += 1;
                    return Ok(J::Arr(v));
                }
                if b.get(*i) == Some(&',') {
                    *i += 1;
                    continue;
                }
                v.push(parse(b, i)?);
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            while let Some(&c) = b.get(*i) {
                *i += 1;
                match c {
                    '"' => return Ok(J::Str(s)),
                    '\\' => {
                        let e = *b.get(*i).ok_or("eof")?;
                        *i += 1;
                        s.push(if e == 'n' { '\n' } else { e });
                    }
                    c => s.push(c),
                }
            }
            Err("string".into())
        }
        't' => {
            *i += 4;
            Ok(J::Bool(true))
        }
        'f' => {
            *i += 5;
            Ok(J::Bool(false))
        }
        'n' => {
            *i += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i].is_ascii_alphanumeric() || "+-.".contains(b[*i])) {
                *i += 1;
            }
            if st == *i {
                return Err(format!("unexpected {:?}", c));
            }
            Ok(J::Num(b[st..*i].iter().collect()))
        }
    }
}

impl Spec {
    pub fn to_json(&self) -> J {
        let (k, a): (&str, Vec<u64>) = match self.sched.strategy {
            Strategy::Replay => ("replay", vec![]),
            Strategy::Seq => ("seq", vec![]),
            Strategy::Rand { gap, psync, from, to } => ("rand", vec![gap, psync, from, to]),
            Strategy::Pct { d, len } => ("pct", vec![d, len]),
            Strategy::Rr { quantum } => ("rr", vec![quantum]),
            Strategy::Starve { victim, len, gap } => ("starve", vec![victim, len, gap]),
        };
        J::Obj(vec![
            ("property".into(), J::s(self.prop.clone())),
            ("params".into(), J::Obj(self.p.iter().map(|(k, v)| (k.clone(), J::i(*v))).collect())),
            (
                "schedule".into(),
                J::Obj(vec![
                    ("kind".into(), J::s(k)),
                    ("args".into(), J::Arr(a.into_iter().map(J::u).collect())),
                    ("seed".into(), J::u(self.sched.seed)),
                    (
                        "deviations".into(),
                        J::Arr(
                            self.sched
                                .trace
                                .iter()
                                .map(|x| J::Arr(vec![J::u(x.0), J::u(x.1 as u64)]))
                                .collect(),
                        ),
                    ),
                ]),
            ),
            (
                "faults".into(),
                J::Arr(
                    self.faults
                        .iter()
                        .map(|f| J::Arr(vec![J::s(FK_NAMES[f.kind as usize]), J::u(f.n), J::u(f.arg)]))
                        .collect(),
                ),
            ),
        ])
    }
    pub fn from_json(j: &J) -> Result<Spec, String> {
        let mut s = Spec::new(j.get("property").ok_or("property")?.str());
        if let Some(J::Obj(v)) = j.get("params") {
            for (k, x) in v {
                s.p.insert(k.clone(), x.int());
            }
        }
        let sc = j.get("schedule").ok_or("schedule")?;
        let a: Vec<u64> = sc.get("args").map_or(vec![], |x| x.arr().iter().map(|y| y.int() as u64).collect());
        s.sched.strategy = match sc.get("kind").ok_or("kind")?.str() {
            "replay" => Strategy::Replay,
            "seq" => Strategy::Seq,
            "rand" => Strategy::Rand { gap: a[0], psync: a[1], from: a[2], to: a[3] },
            "pct" => Strategy::Pct { d: a[0], len: a[1] },
            "rr" => Strategy::Rr { quantum: a[0] },
            "starve" => Strategy::Starve { victim: a[0], len: a[1], gap: a[2] },
            _ => return Err("schedule kind".into()),
        };
        s.sched.seed = sc.get("seed").map_or(1, |x| x.int() as u64);
        for d in sc.get("deviations").map_or(&[][..], |x| x.arr()) {
            s.sched.trace.push((d.arr()[0].int() as u64, d.arr()[1].int() as u32));
        }
        for f in j.get("faults").map_or(&[][..], |x| x.arr()) {
            let a = f.arr();
            let k = FK_NAMES.iter().position(|n| *n == a[0].str()).ok_or("fault kind")?;
            s.faults.push(Fault { kind: FK[k], n: a[1].int() as u64, arg: a[2].int() as u64 });
        }
        Ok(s)
    }
}
