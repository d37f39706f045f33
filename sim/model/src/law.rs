//! Does a recorded history follow the law of a network?
//!
//! Everything is based on the compensator of the counting processes: conditionally on the past, transition x->y of
//! node i under parent configuration u occurs with intensity q(i,u,x,y) while the node is in x and its parents in u.
use crate::net::Net;
use crate::stat::*;
use std::f64::consts::LN_2;

/// exponent of the false-alarm bound per count test: e^-25
pub const TH: f64 = 25.0;
/// sqrt(n) * D: 2 exp(-2 * 3.6^2) = 1e-11
pub const KS_TH: f64 = 3.6;
/// standard normal bound for correlations
pub const Z_TH: f64 = 7.0;

pub struct Law<'a> {
    pub net: &'a Net,
    exit: Vec<Vec<Vec<f64>>>,
    cnt: Vec<Vec<Vec<Vec<f64>>>>,
    expo: Vec<Vec<Vec<f64>>>,
    low: Vec<Vec<Vec<Vec<f64>>>>,
    elow: Vec<Vec<Vec<f64>>>,
    acc: Vec<f64>,
    waits: Vec<Vec<f64>>,
    joint: Vec<f64>,
    state: Vec<usize>,
    us: Vec<usize>,
    children: Vec<Vec<usize>>,
    since: f64,
    pub events: u64,
    pub time: f64,
    pub max_dev: f64,
    pub max_ks: f64,
}

impl<'a> Law<'a> {
    pub fn new(net: &'a Net) -> Law<'a> {
        let n = net.n();
        let shape = |f: &dyn Fn(usize) -> Vec<f64>| -> Vec<Vec<Vec<Vec<f64>>>> {
            (0..n).map(|i| (0..net.nu(i)).map(|_| (0..net.card[i]).map(|_| f(net.card[i])).collect()).collect()).collect()
        };
        let zero = shape(&|c| vec![0.0; c]);
        let exit = (0..n)
            .map(|i| {
                (0..net.nu(i))
                    .map(|u| {
                        (0..net.card[i])
                            .map(|x| (0..net.card[i]).filter(|&y| y != x).map(|y| net.cim[i][u][x][y]).sum())
                            .collect()
                    })
                    .collect()
            })
            .collect();
        let expo: Vec<Vec<Vec<f64>>> = (0..n).map(|i| vec![vec![0.0; net.card[i]]; net.nu(i)]).collect();
        let mut children = vec![vec![]; n];
        for c in 0..n {
            for &p in &net.parents[c] {
                children[p].push(c);
            }
        }
        Law {
            net,
            exit,
            cnt: zero.clone(),
            low: zero,
            elow: expo.clone(),
            expo,
            acc: vec![0.0; n],
            waits: vec![vec![]; n],
            joint: vec![],
            state: vec![],
            us: vec![],
            children,
            since: 0.0,
            events: 0,
            time: 0.0,
            max_dev: 0.0,
            max_ks: 0.0,
        }
    }
    /// A history starts in `s`. Waiting times are measured in operational time, which runs on over the (independent)
    /// histories, so that censored waiting times need no special treatment.
    pub fn begin(&mut self, s: &[usize]) {
        self.state = s.to_vec();
        self.us = (0..self.net.n()).map(|i| self.net.u(i, s)).collect();
    }
    pub fn state(&self) -> &[usize] {
        &self.state
    }
    /// the state is kept for `dt`, then observation goes on (or stops)
    pub fn stay(&mut self, dt: f64) {
        let mut tot = 0.0;
        for i in 0..self.state.len() {
            let (u, x) = (self.us[i], self.state[i]);
            let q = self.exit[i][u][x];
            self.expo[i][u][x] += dt;
            self.acc[i] += dt * q;
            tot += q;
        }
        // the part of the stay before the median of the joint waiting time
        if self.since < LN_2 {
            let dl = dt.min((LN_2 - self.since) / tot);
            for i in 0..self.state.len() {
                self.elow[i][self.us[i]][self.state[i]] += dl;
            }
        }
        self.since += dt * tot;
        self.time += dt;
    }
    /// node i moves to y (legal by assumption)
    pub fn jump(&mut self, i: usize, y: usize) {
        let (u, x) = (self.us[i], self.state[i]);
        self.cnt[i][u][x][y] += 1.0;
        if self.since < LN_2 {
            self.low[i][u][x][y] += 1.0;
        }
        let w = std::mem::replace(&mut self.acc[i], 0.0);
        self.waits[i].push(w);
        self.joint.push(self.since);
        self.since = 0.0;
        self.state[i] = y;
        for k in 0..self.children[i].len() {
            let c = self.children[i][k];
            self.us[c] = self.net.u(c, &self.state);
        }
        self.events += 1;
    }
    /// Err(class, message)
    pub fn verdict(&mut self) -> Result<(), (String, String)> {
        let n = self.net.n();
        for i in 0..n {
            for u in 0..self.net.nu(i) {
                for x in 0..self.net.card[i] {
                    for y in 0..self.net.card[i] {
                        if x == y {
                            continue;
                        }
                        let k = self.cnt[i][u][x][y];
                        let lam = self.net.cim[i][u][x][y] * self.expo[i][u][x];
                        let d = poisson_dev(k, lam);
                        self.max_dev = self.max_dev.max(d);
                        if d > TH {
                            return Err((
                                "rate".into(),
                                format!("node {} parents {} transition {}->{}: {} events where {:.1} were expected (exponent {:.1})", i, u, x, y, k, lam, d),
                            ));
                        }
                        let lam = self.net.cim[i][u][x][y] * self.elow[i][u][x];
                        let d = poisson_dev(self.low[i][u][x][y], lam);
                        self.max_dev = self.max_dev.max(d);
                        if d > TH {
                            return Err((
                                "dependence".into(),
                                format!("node {} parents {} transition {}->{}: {} events came before the median waiting time where {:.1} were expected", i, u, x, y, self.low[i][u][x][y], lam),
                            ));
                        }
                    }
                }
            }
        }
        for i in 0..n {
            if self.waits[i].len() >= 400 {
                let z = serial(&self.waits[i]);
                if z.abs() > Z_TH {
                    return Err(("serial".into(), format!("node {}: successive waiting times are correlated, z={:.1}", i, z)));
                }
                let k = ks_exp(&mut self.waits[i]);
                self.max_ks = self.max_ks.max(k);
                if k > KS_TH {
                    return Err(("waiting".into(), format!("node {}: rescaled waiting times are not exponential, sqrt(n) D = {:.2}, n = {}", i, k, self.waits[i].len())));
                }
            }
        }
        if self.joint.len() >= 400 {
            let z = serial(&self.joint);
            if z.abs() > Z_TH {
                return Err(("serial".into(), format!("successive inter-event times are correlated, z={:.1}", z)));
            }
            let k = ks_exp(&mut self.joint);
            self.max_ks = self.max_ks.max(k);
            if k > KS_TH {
                return Err(("waiting".into(), format!("inter-event times are not exponential, sqrt(n) D = {:.2}", k)));
            }
        }
        Ok(())
    }
}
fn serial(w: &[f64]) -> f64 {
    let u: Vec<f64> = w.iter().map(|x| (-x).exp()).collect();
    let mut z: f64 = 0.0;
    for lag in 1..=2 {
        let c = corr_z(&u[..u.len() - lag], &u[lag..]);
        if c.abs() > z.abs() {
            z = c;
        }
    }
    z
}

/// counts of categories expected to be equally likely; exponent of the worst deviation
pub fn uniform_counts(c: &[f64]) -> f64 {
    let n: f64 = c.iter().sum();
    c.iter().map(|&k| binom_dev(k, n, 1.0 / c.len() as f64)).fold(0.0, f64::max)
}

/// Simulate histories of the network (up to `t_end` if finite, else until `max_rows` rows) with an independent algorithm (Gillespie on the joint state).
pub fn simulate(net: &Net, seed: u64, n_traj: usize, t_end: f64, max_rows: usize) -> Vec<Vec<(f64, Vec<usize>)>> {
    let mut r = crate::net::Mix(seed ^ 0x51_3a7e);
    (0..n_traj)
        .map(|_| {
            let mut s: Vec<usize> = net.card.iter().map(|&c| r.below(c as u64) as usize).collect();
            let mut t = 0.0;
            let mut rows = vec![(0.0, s.clone())];
            while rows.len() < max_rows {
                let ex: Vec<f64> = (0..net.n()).map(|i| net.exit(i, &s)).collect();
                let tot: f64 = ex.iter().sum();
                t += -(1.0 - r.f()).ln() / tot;
                if t >= t_end {
                    break;
                }
                let mut v = r.f() * tot;
                let mut i = 0;
                while i + 1 < ex.len() && v >= ex[i] {
                    v -= ex[i];
                    i += 1;
                }
                let row = net.cim[i][net.u(i, &s)][s[i]].clone();
                let mut v = r.f() * ex[i];
                let mut y = usize::MAX;
                for (k, q) in row.iter().enumerate() {
                    if k != s[i] && *q > 0.0 {
                        y = k;
                        if v < *q {
                            break;
                        }
                        v -= q;
                    }
                }
                s[i] = y;
                rows.push((t, s.clone()));
            }
            if t_end.is_finite() && rows.last().unwrap().0 < t_end {
                rows.push((t_end, s.clone()));
            }
            rows
        })
        .collect()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn own_simulation_passes() {
        for k in 0..20 {
            let net = Net::build(&[2, 3, 2], 0b10_0000_0100 | 1 << 8 | 2, k % 6, k as u64);
            let mut l = Law::new(&net);
            for t in simulate(&net, k as u64, 30, 40.0, 100000) {
                l.begin(&t[0].1);
                for w in t.windows(2) {
                    l.stay(w[1].0 - w[0].0);
                    if let Some(i) = (0..3).find(|&i| w[0].1[i] != w[1].1[i]) {
                        l.jump(i, w[1].1[i]);
                    }
                }
            }
            l.verdict().unwrap();
        }
    }
}
